#include "full.h"
// Steps of the system clock in both directions (C19).
SCENARIO(clock){
  pick_sched_knobs(); net_knobs_lossless(); Full *w = full_new((draw(S_PLAN, 3) == 2 ? 0 : FULL_SBN) | FULL_NOEMWIN | FULL_NOFIFO | (draw(S_PLAN, 3) ? FULL_SERVE : 0)); Conf& c = w->c; c["rtxdb_dbfname"] = "rtx.db"; c["rtxdb_slots"] = "1024"; c["spooldb_slots"] = "65536";
  static const int mn[] = {1, 2, 5, 10}; int mins = mn[draw(S_PLAN, 4)]; c["rtxdb_truncate_minutes"] = strf("%d", mins); static const int pr[] = {60, 30, 120, 300}; int ps = pr[draw(S_PLAN, 4)], pq = pr[draw(S_PLAN, 4)]; c["nbspstats_logperiod_secs"] = strf("%d", ps); c["qstate_logperiod_secs"] = strf("%d", pq); c.write(); spew("n0/sched", "#!/bin/sh\n"); c["scheduler"] = "n0/sched";
  struct Task { std::string name; u64 period; std::vector<u64> runs; size_t have = 0; }; static std::map<std::string, Task> T; T.clear(); T["status"] = {"the statistics", (u64)ps*SEC, {}}; T["qstate"] = {"the queue report", (u64)pq*SEC, {}}; T["sched"] = {"the scheduled cleanup", 60*SEC, {}}; T["rtx"] = {"the discarding of old retransmission records", (u64)mins*60*SEC, {}};
  if(w->m && draw(S_PLAN, 2)){ c["slavestatsfile"] = "n0/stats/slave"; c["slave_stats_logperiod_secs"] = strf("%d", ps); }
  if(!(w->modes & 1)) T.erase("rtx");
  g_exec_hook = [](Proc *p, const std::string& s){ if(s.find("sched") != std::string::npos) T["sched"].runs.push_back(g_now); };
  g_log_hook = [](Proc *p, const std::string& l){ if(l.find("Truncated rtx db") != std::string::npos) { auto it = T.find("rtx"); if(it != T.end()) it->second.runs.push_back(g_now); } };
  Proc *n = full_boot(w); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str()); u64 t0 = g_now; 
  std::vector<std::string> kinds; if(w->types & 1) kinds.push_back("NBS1"); if(w->types & 2) kinds.push_back("NBS2"); std::vector<Client*> cl; bool stop = false, feeding = true, calm = true; std::vector<u64> steps;
  g_fs_hook = [](Proc *p, const std::string& op, const std::string& f){ if(op != "close") return; size_t k = f.rfind("/stats/"); if(k == std::string::npos) return; std::string b = f.substr(k + 7); if(b == "status") T["status"].runs.push_back(g_now); if(b == "qstate") T["qstate"].runs.push_back(g_now); };
  auto add_client = [&]() -> Client* { if(kinds.empty()) return nullptr; Client *k = client_new(kinds[draw(S_PLAN, kinds.size())], 0x0A000200 + cl.size(), strf("g%zu", cl.size())); cl.push_back(k); actor(k->p, "client", [k]{ client_run(k, 0x0A000001); }); return k; };
  auto served = [&](Client *k, const char *when){ if(!k) return; u64 j = (8 + 2*cl.size())*SEC; size_t b0 = k->ps.got.size(); if(!wait_for([&]{ return k->ps.got.size() > b0 || k->eof; }, j + 15*SEC, 100*MS)) violation("client-starved", "%.0f s %s a %s client has received nothing: %s", (j + 15*SEC)/1e9, when, k->kind.c_str(), blocked_summary().c_str()); if(k->eof) violation("client-dropped", "a %s client was disconnected %s: %s", k->kind.c_str(), when, n->logs.back().c_str()); };
  static const u64 gp[] = {2*SEC, 8*SEC, 500*MS}; u64 gap = gp[draw(S_PLAN, 3)]; 
  actor(new_proc("src", 0x0A000070), "src", [&]{ while(!stop){ full_send(w, 4000); sim_sleep(draw(S_PLAN, gap), false); } feeding = false; });
  full_flow(w, 60*SEC, "after the start"); served(add_client(), "after connecting"); (void)calm;
  i64 off = 0; int ns = draw(S_FAULT, 4) == 0 ? 0 : 1 + draw(S_FAULT, 4); std::string what; u64 maxp = 0; for(auto &t : T) maxp = std::max(maxp, t.second.period);
  for(int i=0;i<ns;i++){ sim_sleep(4*SEC + draw(S_FAULT, draw(S_FAULT, 2) ? 400*SEC : 20*SEC), false);
    static const u64 sz[] = {2, 30, 61, 300, 3600, 86400, 86400*40ull, 86400*3000ull}; i64 d = (i64)(1 + draw(S_FAULT, sz[draw(S_FAULT, 8)]*1000)) * (i64)MS; if(draw(S_FAULT, 2)) d = -d; if(off + d < -(i64)(86400*5000ull)*(i64)SEC) d = -d; if(off + d > (i64)(86400*4000ull)*(i64)SEC) d = -d; off += d; set_clock_offset(n, off); steps.push_back(g_now); what += strf(" %+.1f s", d/1e9); tr("clock step %+.3f s", d/1e9);
    if(draw(S_PLAN, 2)) served(add_client(), strf("after a clock step of %.1f s", d/1e9).c_str()); 
    if(draw(S_PLAN, 3) == 2){ u64 o = w->f1->opens; signal_proc(n, SIGHUP); if(!wait_for([&]{ return w->f1->opens > o; }, 20*SEC, 50*MS)) violation("reload-ignored", "20 s after a hangup signal that followed a clock step of %.1f s the filters were not started again", d/1e9); }
    full_flow(w, 20*SEC, strf("after a clock step of %.1f s", d/1e9).c_str()); for(auto k : cl) served(k, strf("after a clock step of %.1f s", d/1e9).c_str()); }
  if(ns) sim_sleep(2*maxp + 30*SEC, false); else sim_sleep(draw(S_PLAN, 2)*3*maxp, false);
  u64 t1 = g_now; bool idle = draw(S_PLAN, 4) == 3; stop = true; wait_for([&]{ return !feeding; }, 60*SEC, 10*MS);
  drain_feed(n); expect_alive(n, "after the clock steps"); full_check(w, false, true); full_files_whole(w); if(w->modes == 1) w->rx.check(w->f1->notes, "n0");
  { std::map<u32,u64> at; for(auto &t : w->f1->notes) at[t.seq] = t.t; for(auto &i : w->rx.insts){ const Prod& p = w->rx.prods[i.prod]; if(!i.must) continue; u64 s = w->sent_at.count(p.seq) ? w->sent_at[p.seq] : 0; if(!s || !at.count(p.seq)) continue; u64 lim = 20*SEC; if(at[p.seq] > s + lim) violation("late", "product %u was announced %.1f s after it was sent; clock steps%s", p.seq, (at[p.seq] - s)/1e9, what.c_str()); } }
  if(w->modes == 1) for(auto k : cl) check_stream(k->p->name, k->kind, k->ps.got, w->f1->notes, w->rx, NEVER);
  for(auto &kv : T){ Task& t = kv.second; u64 P = t.period, slack = 5*SEC + 10*SEC; std::vector<u64> marks = {t0}; for(auto s : steps) marks.push_back(s); probe(strf("runs_%s", kv.first.c_str()).c_str(), t.runs.size());
    // within two periods of every step, and of every run, unless the clock was stepped again
    std::vector<u64> from = marks; for(auto r : t.runs) from.push_back(r); for(auto f : from){ u64 lim = f + 2*P + slack; if(lim > t1) continue; u64 nx = NEVER; for(auto r : t.runs) if(r > f){ nx = r; break; } if(nx <= lim) continue; bool again = false; for(auto s : steps) if(s > f && s <= lim) again = true; if(again) continue; violation("task-stopped", "%s, due every %.0f s, did not run for %.0f s after %.1f s (%zu runs in all); clock steps%s", t.name.c_str(), P/1e9, ((nx == NEVER ? t1 : nx) - f)/1e9, f/1e9, t.runs.size(), what.c_str()); }
    // no burst: k runs take at least k-1 periods, less one for each step in between
    for(size_t i=0;i<t.runs.size();i++) for(size_t k=i+1;k<t.runs.size();k++){ size_t st = 0; for(auto s : steps) if(s + slack > t.runs[i] && s < t.runs[k]) st++; size_t max = (t.runs[k] - t.runs[i] + slack)/P + 1 + 2*st; if(k - i + 1 > max + (kv.first == "sched" ? 1 : 0)) violation("task-burst", "%s, due every %.0f s, ran %zu times within %.0f s; clock steps%s", t.name.c_str(), P/1e9, k - i + 1, (t.runs[k] - t.runs[i])/1e9, what.c_str()); } }
  sample(strf("clock steps%s; %zu products, %zu clients", what.empty() ? " none" : what.c_str(), w->f1->notes.size(), cl.size())); for(auto k : cl) k->stop = true;
  if(idle && ns){ off -= 3600ll*(i64)SEC; set_clock_offset(n, off); sim_sleep(draw(S_PLAN, 3*SEC), false); } clean_stop(n, 60*SEC, "after clock steps");
}
