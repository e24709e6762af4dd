#include "full.h"
#include <sys/stat.h>
// Starting while something cannot be obtained (C27): one or a few calls of the start fail, or a part of the surroundings is not as it should be.
static std::string tail(Proc *n, int k = 6){ std::string s; for(size_t i = n->logs.size() > (size_t)k ? n->logs.size()-k : 0; i < n->logs.size(); i++) s += n->logs[i] + " | "; return s; }
SCENARIO(start){
  pick_sched_knobs(); net_knobs_lossless(); Full *w = full_new(draw(S_PLAN, 2) ? FULL_SERVE : 0); w->rx.o.lenient = true; w->c.write(); const std::string pf = "n0/run/nbspd.pid"; int rounds = 1 + draw(S_PLAN, 3); size_t failed = 0, ran = 0, late = 0; std::string what;
  static std::string all; static Proc *cur; static bool up; g_log_hook = [](Proc *p, const std::string& l){ if(p == cur) all += l + "\n"; };
  auto working = [&](Proc *n, const std::string& when){       // every configured part of the service works
    full_flow(w, 60*SEC, when.c_str()); if(!w->types) return; std::vector<std::string> kinds; if(w->types & 1) kinds.push_back("NBS1"); if(w->types & 2) kinds.push_back("NBS2"); if(w->types & 4) kinds.push_back("EMWIN"); static int nc; std::vector<Client*> v;
    for(auto &k : kinds){ Client *c = client_new(k, 0x0A000200 + (nc & 255), strf("g%d", nc)); nc++; v.push_back(c); actor(c->p, "client", [c]{ client_run(c, 0x0A000001); }); }
    auto got = [](Client *c){ return c->kind == "EMWIN" ? c->ps.bytes > 0 : !c->ps.got.empty(); }; u64 end = g_now + 90*SEC; for(;;){ bool ok = true; for(auto c : v) if(!got(c)) ok = false; if(ok) break; if(g_now > end) for(auto c : v) if(!got(c)) violation("half-started", "a client of kind %s %s and got nothing in 90 s %s: %s %s", c->kind.c_str(), c->connected ? "connected" : "could not connect", when.c_str(), tail(n, 10).c_str(), blocked_summary().c_str()); full_send(w, 2000); sim_sleep(300*MS, false); expect_alive(n, when.c_str()); }
    for(auto &f : g_pf) if(f.second != w->f1){ auto has = [&]{ for(auto &x : f.second->notes) if(!w->f1->notes.empty() && x.seq == w->f1->notes.back().seq) return true; return false; }; u64 e2 = g_now + 30*SEC; while(!has()){ if(g_now > e2) violation("half-started", "the filter %s gets nothing %s: %s", f.first.c_str(), when.c_str(), tail(n, 10).c_str()); full_flow(w, 60*SEC, when.c_str()); sim_sleep(1*SEC, false); } }
    for(auto f : w->ff){ size_t n0 = f->notes.size(); u64 e2 = g_now + 60*SEC; while(f->notes.size() == n0){ if(g_now > e2) violation("half-started", "the pipe %s gets nothing %s: %s", f->path.c_str(), when.c_str(), tail(n, 10).c_str()); full_flow(w, 60*SEC, when.c_str()); sim_sleep(500*MS, false); } }
    for(auto c : v) c->stop = true; };
  for(int r=0;r<rounds;r++){
    all.clear(); up = false; int k = draw(S_FAULT, 15); Proc *other = nullptr; static const int cls[] = {FC_MEM, FC_OPEN, FC_THREAD, FC_SOCK, FC_DB, FC_WRITE, 63}; std::string moved, made;
    auto mv = [&](const std::string& d){ moved = d; rename(d.c_str(), (d + ".away").c_str()); };
    if(k == 8){ what = "the port is taken"; other = new_proc("other", 0x0A000001); static int ofd; actor(other, "listen", []{ ofd = sim_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in in; memset(&in,0,sizeof in); in.sin_family = AF_INET; in.sin_port = htons(2210); in.sin_addr.s_addr = htonl(0x0A000001); sim_bind(ofd, (struct sockaddr*)&in, sizeof in); sim_listen(ofd, 1); }); sim_sleep(10*MS, false); fault_fired("port_taken"); }
    if(k == 9){ static const char *d[] = {"n0/spool", "n0/db", "n0/run", "n0/stats"}; std::string s = d[draw(S_FAULT, 4)]; what = s + " is missing"; moved = s; fault_fired("directory_missing"); }
    if(k == 10){ static const char *d[] = {"n0/run/nbspd.pid", "n0/run/nbspd.fifo", "n0/run/infeed.fifo", "n0/db/spool.state"}; made = d[draw(S_FAULT, 4)]; what = "a directory is in the way of " + made; unlink(made.c_str()); ::mkdir(made.c_str(), 0755); fault_fired("name_taken"); }
    if(k == 14){ made = "n0/db/spool.state"; std::string g = slurp(made); size_t at = g.size() ? draw(S_FAULT, g.size()) : 0; switch(draw(S_FAULT, 4)){ case 0: g.resize(at); break; case 1: g.clear(); for(int i=0, m = 1 + draw(S_FAULT, 900);i<m;i++) g += (char)draw(S_FAULT, 256); break; case 2: for(int i=0;i<8;i++) if(at + i < g.size()) g[at + i] ^= 1 + draw(S_FAULT, 255); break; default: g += std::string(1 + draw(S_FAULT, 100), 'x'); } spew(made, g); what = "the saved record of the spool is damaged"; fault_fired("damaged_spool_record"); }
    Proc *n = full_boot(w); cur = n; if(!moved.empty()) mv(moved); n->io.on = true; u64 tstart = g_now;
    if(k >= 1 && k <= 7){ n->io.fail_class = cls[k-1]; static const int mx[] = {150, 40, 16, 16, 12, 4, 250}; n->io.fail_at = 1 + draw(S_FAULT, mx[k-1]); n->io.fail_run = draw(S_FAULT, 3) == 2 ? 1 + draw(S_FAULT, 30) : 1; static const char *nm[] = {"an allocation", "an open", "a thread or program start", "a socket call", "a database call", "a write", "some call"}; what = strf("%s fails (number %llu, %llu times)", nm[k-1], (unsigned long long)n->io.fail_at, (unsigned long long)n->io.fail_run); }
    if(k == 11){ n->fd_limit = 4 + draw(S_FAULT, 40); what = strf("only %d descriptors", n->fd_limit); }
    if(k == 12){ n->io.disk_full = true; what = "the disk is full"; }
    if(k == 13){ static const double q[] = {0.01, 0.05, 0.2}; double x = q[draw(S_FAULT, 3)]; n->io.p_malloc = x; n->io.p_open_fail = x; n->io.p_thread = x; n->io.p_sock = x; n->io.p_enospc = x; what = strf("each call fails with probability %g", x); }
    if(k == 0) what = "nothing fails";
    // the shortage lasts for a while, then everything can be had again
    wait_for([&]{ return !n->alive || exists(pf); }, 20*SEC, 1*MS); sim_sleep(draw(S_FAULT, 2) ? draw(S_FAULT, 8*SEC) : 300*MS, false); bool stop_early = draw(S_FAULT, 6) == 5; if(stop_early && n->alive){ signal_proc(n, SIGTERM); fault_fired("stop_while_starting"); if(!wait_exit(n, 90*SEC)) violation("start-hang", "told to stop while %s, the daemon did not exit: %s", what.c_str(), blocked_summary().c_str()); }
    bool fired = n->io.fail_seen >= n->io.fail_at; n->io = IoFaults(); n->fd_limit = 1024; n->io.on = false; if(other && other->alive) crash_proc(other);
    if(n->alive){ wait_for([&]{ return !n->alive || has_log(n, "Spawned"); }, 20*SEC, 10*MS); wait_for([&]{ return !n->alive; }, 15*SEC, 100*MS); }
    if(!moved.empty()){ if(exists(moved)) rename(moved.c_str(), (moved + ".new").c_str()); rename((moved + ".away").c_str(), moved.c_str()); }
    std::string when = "after a start during which " + what;
    if(n->alive){ ran++; if(!exists(pf) && made != pf && k != 0) violation("half-started", "the daemon runs without its process-id file %s: %s", when.c_str(), tail(n).c_str()); (void)fired;
      working(n, when); clean_stop(n, 60*SEC, when.c_str()); }
    else { failed++; if(g_now - tstart > 3*SEC) late++; if(n->crashed) violation("start-crash", "the daemon was killed %s", when.c_str()); if(k == 0 && !stop_early) violation("boot", "the daemon did not start although nothing was wrong: %s", tail(n).c_str());
      if(!stop_early && n->exit_code == 0 && all.find("Spawned") == std::string::npos) violation("start-status", "the daemon could not start and exited with status 0 %s: %s", when.c_str(), tail(n, 12).c_str()); if(!stop_early && !n->errs) violation("start-silent", "the daemon could not start (exit %d) and did not say why %s: %s", n->exit_code, when.c_str(), tail(n, 12).c_str()); }
    if(exists(pf) && made != pf){ if(all.find("Could not remove pidfile") != std::string::npos) unlink(pf.c_str()); else violation("pidfile-left", "no daemon runs and the process-id file is there, so that none can start, %s: %s", when.c_str(), tail(n).c_str()); }
    if(!made.empty()){ ::rmdir(made.c_str()); if(k == 14) unlink(made.c_str()); } probe(strf("k%d_%s", k, n->alive ? "ran" : n->exit_code ? "failed" : "ended").c_str()); }
  all.clear(); Proc *n = full_boot(w); cur = n; if(!node_ready(n)) violation("boot", "the daemon did not start after %s: %s", what.c_str(), tail(n).c_str());
  working(n, "in a start after " + what); drain_feed(n); clean_stop(n, 60*SEC, "at the end"); full_check(w, false, false); probe("failed_starts", failed); probe("starts_that_ran", ran); probe("late_failures", late); sample(strf("feed mode %d, services %d: %zu starts failed and %zu ran; last: %s", w->modes, w->types, failed, ran, what.c_str()));
}
