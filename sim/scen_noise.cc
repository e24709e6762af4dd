#include "full.h"
// Misbehaving clients among good ones (C09).
SCENARIO(noise){
  pick_sched_knobs(); net_knobs_lossless(); Full *w = full_new(FULL_SBN | FULL_SERVE | FULL_NOFIFO); bool hard = draw(S_PLAN, 3) == 2; if(hard){ w->c["clientqueuemaxsoft"] = "20"; w->c["clientqueuemaxhard"] = "40"; }
  Proc *n = full_boot(w); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  size_t fds0 = 0; sim_sleep(3*SEC, false); fds0 = open_fds(n);
  std::vector<std::string> kinds; if(w->types & 1) kinds.push_back("NBS1"); if(w->types & 2) kinds.push_back("NBS2"); if(w->types & 4) kinds.push_back("EMWIN"); std::vector<Client*> good; int ng = 1 + draw(S_PLAN, 3);
  for(int i=0;i<ng;i++){ Client *k = client_new(kinds[draw(S_PLAN, kinds.size())], 0x0A000200 + i, strf("g%d", i)); good.push_back(k); actor(k->p, "client", [k]{ client_run(k, 0x0A000001); }); }
  sim_sleep((6 + 2*ng)*SEC, false); full_send(w, 3000); sim_sleep(2*SEC, false); u64 t1 = g_now; bool chk = true;
  static const double st[] = {0, 0.3}; n->io.on = true; n->io.p_tcp_short = st[draw(S_PLAN, 2)];
  static const u64 gp[] = {600*MS, 2*SEC, 300*MS}; u64 gap = gp[draw(S_PLAN, 3)]; if(hard || (w->types & 4)) gap = 2*SEC; /* the simulated processor must keep up with the good clients */ u64 dur = draw(S_PLAN, 3) == 2 ? 100*SEC : 15*SEC; bool stop = false; int waves = 1 + draw(S_PLAN, 3);
  bool feeding = true; actor(new_proc("src", 0x0A000070), "src", [&]{ while(!stop){ full_send(w, draw(S_PLAN, 8) == 7 ? 60000 : 3000); sim_sleep(draw(S_PLAN, gap), false); } feeding = false; });
  for(int i=0;i<waves;i++){ full_noise(w, 1 + draw(S_PLAN, 6)); u64 d = g_now + dur/waves; while(g_now < d){ sim_sleep(draw(S_FAULT, 3*SEC), false); int k = draw(S_FAULT, 6), j = w->cl.empty() ? 0 : draw(S_FAULT, w->cl.size()); if(w->cl.empty()) continue; Client *x = w->cl[j]; switch(k){ case 1: fault_fired("client_reset"); tcp_reset_all(0x0A000001, x->p->ip); break; case 2: fault_fired("client_unreachable"); net_partition(0x0A000001, x->p->ip, true); break; case 3: fault_fired("client_killed"); x->stop = true; break; case 4: x->hold_until = g_now + draw(S_FAULT, 40*SEC); fault_fired("client_paused"); break; default: break; } } }
  stop = true; wait_for([&]{ return !feeding; }, 60*SEC, 10*MS); { size_t total = 0, last = ~0ul; wait_for([&]{ total = w->f1->notes.size(); for(auto k : good) total += k->ps.bytes; bool same = total == last; last = total; return same; }, 300*SEC, 12*SEC); } expect_alive(n, "with misbehaving clients");
  full_check(w, false); auto &notes = w->f1->notes; w->rx.check(notes, "n0");
  u64 worst = 0; for(auto &t : notes){ u64 s = w->sent_at[t.seq]; worst = std::max(worst, t.t - s); if(t.t > s + 10*SEC) violation("filter-delayed", "product %u was announced %.1f s after it was sent", t.seq, (t.t - s)/1e9); } R.probes["announce_ms_max"] = std::max<u64>(R.probes["announce_ms_max"], worst/MS);
  for(auto k : good){
    if(!k->connected) violation("client-refused", "%s could not connect", k->p->name.c_str()); if(!k->ps.err.empty()) violation("client-format", "%s (%s): %s", k->p->name.c_str(), k->kind.c_str(), k->ps.err.c_str());
    if(k->eof) violation("client-dropped", "%s (%s), which behaves, was disconnected by the server", k->p->name.c_str(), k->kind.c_str());
    check_stream(k->p->name, k->kind, k->ps.got, notes, w->rx, t1); std::map<std::string,u64> at_; for(auto &t : notes) at_[k->kind == "EMWIN" ? emwin_name(t.seq) : strf("%u", t.seq)] = t.t;
    for(auto &g : k->ps.got){ std::string key = k->kind == "EMWIN" ? g.name : strf("%u", g.seq); for(auto &c : key) c = tolower(c); u64 a = at_[key]; if(g.t < t1 || !a) continue; u64 l = g.t > a ? g.t - a : 0; R.probes["client_delay_ms_max"] = std::max<u64>(R.probes["client_delay_ms_max"], l/MS); if(l > 15*SEC) violation("client-delayed", "%s (%s) received %s %.1f s after it was announced", k->p->name.c_str(), k->kind.c_str(), key.c_str(), l/1e9); } probe("client_products", k->ps.got.size()); }
  // everything held for the others is released once they are gone
  for(auto k : w->cl) k->stop = true; w->quit = true; for(int i=0;i<w->noise;i++) net_partition(0x0A000001, 0x0A000100 + i, false); sim_sleep(5*SEC, false); for(int i=0;i<w->noise;i++) tcp_reset_all(0x0A000001, 0x0A000100 + i);
  for(int i=0;i<8;i++){ full_send(w, 2000); sim_sleep(500*MS, false); } sim_sleep(120*SEC, false); size_t fds = open_fds(n); if(fds > fds0 + good.size() && chk) violation("not-released", "%zu descriptors are open after the misbehaving clients are gone; %zu were before they came, and %zu clients remain: %s", fds, fds0, good.size(), fd_listing(n).c_str());
  sample(strf("services %d, %d good and %d other clients, %zu products", w->types, ng, w->noise, notes.size())); for(auto k : good) k->stop = true; n->io.on = false; clean_stop(n, 60*SEC, "with clients connected");
}
