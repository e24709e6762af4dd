#include "full.h"
// Clients that stop reading until the server gives them up, and come back (C10).
extern bool tcp_fin_pending(Proc *p, int fd); extern size_t g_tcp_sndcap;
struct RConn { u64 t0 = 0, acc = 0, fin = 0; Parser ps; bool rst = false, forced = false; };   // one connection of a client
struct RCli { std::string kind; Proc *p; std::vector<RConn> cs; bool stop = false, done = false, hold = false, busy = false; u64 W = 0; size_t stalls = 0; };
SCENARIO(reconn){
  pick_sched_knobs(); net_knobs_lossless(); Full *w = full_new(FULL_SBN | FULL_NOFIFO | FULL_SERVE | FULL_NOEMWIN); w->types = 3; server_conf(w->c, 3); Conf& c = w->c; c.o.erase("rtxdb_dbfname");
  static const int sl[] = {10, 2, 1}, rt[] = {6, 2, 1}; int isl = draw(S_PLAN, 3), irt = draw(S_PLAN, 3); u64 slp = sl[isl]*SEC, W = slp*rt[irt]; c["client_reconnect_wait_sleep_secs"] = strf("%d", sl[isl]); c["client_reconnect_wait_sleep_retry"] = strf("%d", rt[irt]);
  static const int wt[] = {500, 1000, 3000}, wr[] = {0, 1, 2}; int iwt = draw(S_PLAN, 3), iwr = draw(S_PLAN, 3); u64 WT = (u64)wt[iwt]*(wr[iwr]+1)*MS; c["client_write_timeout_ms"] = strf("%d", wt[iwt]); c["client_write_timeout_retry"] = strf("%d", wr[iwr]);
  static const size_t sc[] = {87040, 4000, 600}; g_tcp_sndcap = sc[draw(S_PLAN, 3)]; bool tired = false;
  Proc *n = full_boot(w); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  full_flow(w, 60*SEC, "at the start"); sim_sleep(3*SEC, false); size_t base_fds = open_fds(n); int nc = 1 + draw(S_PLAN, 3); u64 J = (6 + 2*nc)*SEC; std::vector<RCli*> cl;
  for(int i=0;i<nc;i++){ RCli *k = new RCli; static const char *kd[] = {"NBS1","NBS2"}; k->kind = kd[draw(S_PLAN, 4) == 3]; k->p = new_proc(strf("c%d", i), 0x0A000100 + i); k->W = W; cl.push_back(k); int nconn = 2 + draw(S_PLAN, 4); bool calm = i && draw(S_PLAN, 3) == 2;
    actor(k->p, "client", [=, &tired]{
      for(int j=0;j<nconn && !k->stop;j++){
        k->cs.emplace_back(); RConn *r = &k->cs.back(); r->ps.kind = k->kind; int fd = -1; for(u64 d = g_now + 60*SEC; g_now < d && !k->stop; sim_sleep(500*MS, false)) if((fd = actor_connect(k->p, 0x0A000001, 2210, 20*SEC)) >= 0) break; if(fd < 0) break; r->t0 = g_now; size_t rc[] = {k->kind == "NBS2" ? 300ul : 8000ul, 20000, 131072}; fd_set_cap(k->p, fd, rc[draw(S_PLAN, k->kind == "NBS2" ? 1 : 3)], 0); actor_writeall(fd, k->kind, g_now + 5*SEC); r->acc = g_now;
        bool last = j == nconn - 1 || calm; u64 stall_at = last ? NEVER : g_now + J + draw(S_PLAN, 10*SEC); u64 how = last ? 9 : draw(S_FAULT, 5); if(how == 4) r->forced = true;
        while(!k->stop){
          if(g_now >= stall_at){
            if(how == 4){ fault_fired("client_reset"); r->rst = true; tcp_reset_all(k->p->ip, 0x0A000001); break; }                 // the connection breaks
            fault_fired("client_stalled"); k->stalls++; k->busy = true; u64 t1 = g_now; wait_for([&]{ return k->stop || tired || tcp_fin_pending(k->p, fd); }, 400*SEC, 50*MS); if(tcp_fin_pending(k->p, fd)){ r->fin = g_now; tr("client %s given up after %.1f s", k->p->name.c_str(), (g_now - t1)/1e9); } k->busy = false; stall_at = NEVER; if(k->stop) break; }
          struct pollfd pf = {fd, POLLIN, 0}; if(sim_poll(&pf, 1, 200) == 0) continue; char b[16384]; ssize_t z = sim_read(fd, b, sizeof b); if(z <= 0){ if(z < 0) r->rst = true; if(!r->fin) r->fin = g_now; break; } r->ps.feed(std::string(b, z)); if(!r->ps.err.empty()) break; }
        sim_close(fd); if(k->stop || last) break;
        // come back: at once, within the time, around its end, or late
        u64 z = how == 1 ? draw(S_PLAN, W) : how == 2 ? W + draw(S_PLAN, 20*SEC) - std::min<u64>(W, 10*SEC) : how == 3 ? W + 2*slp + 15*SEC + WT + draw(S_PLAN, 20*SEC) : draw(S_PLAN, 2*SEC); for(u64 d = g_now + z; g_now < d && !k->stop;) sim_sleep(std::min<u64>(d - g_now, 500*MS), false); }
      k->done = true; }); }
  // products flow all the while; bigger ones when somebody has to be filled up
  u64 t0 = g_now, tend = t0 + 40*SEC + draw(S_PLAN, 5)*60*SEC; size_t total = 0;
  while((g_now < tend || std::any_of(cl.begin(), cl.end(), [](RCli *k){ return k->busy; })) && total < 700){ bool busy = false, all = true; for(auto k : cl){ busy |= k->busy; all &= k->done; } full_send(w, busy ? 30000 : 2000); total++; sim_sleep(busy ? 100*MS + draw(S_PLAN, 300*MS) : 300*MS + draw(S_PLAN, 3*SEC), false); expect_alive(n, "while serving clients"); }
  tired = true; sim_sleep(W + slp + J + WT + 5*SEC, false); for(int i=0;i<3;i++){ full_send(w, 2000); sim_sleep(SEC, false); } drain_feed(n); sim_sleep(8*SEC, false); { size_t last = ~0ul, tot = 0; wait_for([&]{ tot = 0; for(auto k : cl) for(auto& r : k->cs) tot += r.ps.bytes; bool same = tot == last; last = tot; return same; }, 300*SEC, 8*SEC); }
  full_check(w, false, false); auto& ref = w->f1->notes; std::map<u32,size_t> idx; for(size_t i=0;i<ref.size();i++) idx[ref[i].seq] = i; size_t resumed = 0, fresh = 0;
  for(auto k : cl){ const char *who = k->p->name.c_str(); long next = -1;                                                  // next = index of the product due on resumption
    for(size_t j=0;j<k->cs.size();j++){ RConn& r = k->cs[j]; if(!r.t0) continue; bool lastc = j + 1 == k->cs.size() || !k->cs[j+1].t0; if(!r.ps.err.empty()) violation("client-format", "%s (%s), connection %zu: %s", who, k->kind.c_str(), j, r.ps.err.c_str());
      auto& g = r.ps.got; int want = 0; /* 1 resume, 0 fresh, -1 either */ u64 since = 0;
      if(j){ RConn& o = k->cs[j-1]; u64 gone = o.fin ? o.fin : o.t0; since = r.t0 - gone; if(o.rst || o.forced) want = -1; else if(r.t0 + J < gone + W - std::min<u64>(W, WT + 3*SEC)) want = 1; else if(r.t0 > gone + W + slp + 5*SEC) want = 0; else want = -1; if(!o.fin) want = -1; }
      if(g.empty()){ if(j && want == 1 && lastc && next < (long)ref.size()) violation("not-resumed", "%s came back %.1f s after it was given up, within the %.0f s, and received nothing, though product %u was due", who, since/1e9, W/1e9, ref[next].seq); if(want == 1 && !lastc) continue; if(want != 1) next = -1; continue; }
      auto it = idx.find(g[0].seq); if(it == idx.end()) violation("client-unknown", "%s received %u which was never announced", who, g[0].seq); long i0 = it->second; if(j){ bool res = next >= 0 && i0 == next; if(res) resumed++; else fresh++; if(want == 1 && next >= 0 && !res) violation(i0 > next ? "skipped" : "repeated", "%s came back %.1f s after it was given up, within the %.0f s, and %u came first where %u was due", who, since/1e9, W/1e9, g[0].seq, ref[next].seq); if(next >= 0 && i0 < next) violation("repeated", "%s received %u again after it came back", who, g[0].seq); if(want == 0 && ref[i0].t + 30*SEC < r.t0) violation("not-forgotten", "%s came back %.1f s after it was given up and received %u announced %.1f s before", who, since/1e9, g[0].seq, (r.t0 - ref[i0].t)/1e9); }
      check_stream(who, k->kind, g, ref, w->rx, j && (want != 0) ? NEVER : r.acc + J, lastc && !r.fin && !r.rst); next = i0 + g.size();
      if(lastc && r.fin && !r.rst && !k->stalls) violation("client-dropped", "%s was disconnected without a reason", who); } }
  // everybody leaves: everything they held is released
  for(auto k : cl) k->stop = true; u64 rel = W + slp + WT + 20*SEC; if(!wait_for([&]{ return !n->alive || open_fds(n) <= base_fds; }, rel, 500*MS)) violation("not-released", "%.0f s after all clients left there are %zu descriptors open, %zu before: %s", rel/1e9, open_fds(n), base_fds, fd_listing(n).c_str());
  expect_alive(n, "after the clients left"); probe("resumed", resumed); probe("fresh", fresh); sample(strf("%d clients, %zu products, %zu resumed, %zu fresh, wait %.0f s", nc, ref.size(), resumed, fresh, W/1e9)); clean_stop(n, 60*SEC, "at the end");
}
