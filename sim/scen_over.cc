#include "full.h"
// Overload: limited queues against slow storage, filters and clients (C21).
extern std::function<void(Proc*, int, u32, const std::string&, const char*, size_t)> g_wr_hook; extern std::function<void(Proc*, const std::string&, int)> g_open_hook; extern size_t g_tcp_sndcap, g_popen_cap;
struct OvPoint { u64 t; i64 v; };
struct OvLine { std::vector<OvPoint> h; i64 v = 0; void add(i64 d){ v += d; h.push_back({g_now, v}); } i64 max_since(u64 t) const { i64 m = 0; size_t i = h.size(); while(i-- > 0){ m = std::max(m, h[i].v); if(h[i].t < t) break; } return m; } };
struct Over { OvLine pn, pb, qn; std::map<u32,u64> done_at, saved_at; std::vector<u32> saved; std::set<u32> rej_p, rej_q0, rej_q1; std::map<u32,size_t> size; std::map<std::string,u32> bypath; u32 last_saved = 0; bool inhand = false; u64 inhand_since = 0, last_done = 0; u64 hold = 0, delay = 0; std::string inpath; std::map<std::string,u64> lines; std::vector<std::string> limlogs; std::vector<u64> limt; size_t pending_p = 0; std::map<u32,Parser> tk; std::map<u32,u64> rej_q0_t; u64 seen = 0; };
SCENARIO(over){
  pick_sched_knobs(); net_knobs_lossless(); Full *w = full_new(FULL_SBN | FULL_NOFIFO | FULL_NOEMWIN | (draw(S_PLAN, 2) ? FULL_SERVE : 0)); Conf& c = w->c; c["filterlist"] = "f1"; c["spooldb_slots"] = "65536"; c.o.erase("rtxdb_dbfname"); w->nch = 1 + draw(S_PLAN, 3);
  static Over *O; O = new Over; static Full *W; W = w; static const size_t pc[] = {4096, 300, 65536}; size_t pcap = pc[draw(S_PLAN, 3)]; g_popen_cap = pcap; static const size_t sc[] = {87040, 3000}; g_tcp_sndcap = sc[draw(S_PLAN, 2)];
  if(draw(S_PLAN, 3) == 2 && w->types){ w->types |= 4; server_conf(c, w->types); static const u64 ed[] = {0, 50*MS, 400*MS}; g_emw.delay_max = ed[draw(S_PLAN, 3)]; }
  static int LP, LQ, LC; static size_t LM; static i64 leftp, leftq, leftb; leftp = leftq = leftb = 0; auto lim = [](int lo){ static const int l[] = {0, 1, 2, 5, 20}; int x = l[draw(S_PLAN, 5)]; return x ? x + lo : 0; };
  auto limits = [&]{ LP = lim(0); LQ = lim(0); LC = lim(0); LM = draw(S_PLAN, 4) == 3 ? 1 + draw(S_PLAN, 2) : 0; c["pctlmaxhard"] = strf("%d", LP); c["pctlmaxsoft"] = strf("%d", draw(S_PLAN, 2) ? LP : lim(0)); c["queuemaxhard"] = strf("%d", LQ); c["queuemaxsoft"] = strf("%d", draw(S_PLAN, 2) ? LQ : lim(0)); c["clientqueuemaxhard"] = strf("%d", LC); c["clientqueuemaxsoft"] = strf("%d", draw(S_PLAN, 2) ? LC : lim(0)); c["pctlmaxmemhard"] = strf("%zu", LM); c["pctlmaxmemsoft"] = strf("%d", (int)draw(S_PLAN, 3)); };
  limits(); int LM0 = LM; c["client_write_timeout_ms"] = "600000"; static const char *qd[] = {"", "q"}; c["qdbfname"] = qd[draw(S_PLAN, 2)]; static const char *lp_[] = {"60", "5", "600"}; c["server_clientqlimit_logperiod_secs"] = lp_[draw(S_PLAN, 3)]; u64 clp = atoi(c["server_clientqlimit_logperiod_secs"].c_str())*SEC;
  static Proc *N0 = nullptr; static int soft_p; static std::vector<std::pair<u64,std::string>> logs; logs.clear();
  g_log_hook = [](Proc *p, const std::string& l){ if(p != N0) return; Over& o = *O; if(l.find("imit") != std::string::npos || l.find("Rejecting") != std::string::npos || l.find("restored") != std::string::npos) logs.push_back({g_now, l}); size_t k;
    if(l.find("Rejecting additions to pctldb") != std::string::npos){ o.pending_p++; return; }
    if(sscanf(l.c_str() + ((k = l.find("Could not add ")) == l.npos ? 0 : k), "Could not add %*u to processor") == 0 && k != l.npos && l.find("to processor queue") != l.npos){ u32 q = strtoul(l.c_str() + k + 14, 0, 10); if(!o.done_at.count(q)) violation("reject-unknown", "a product that was not received is said to be turned away: %s", l.c_str()); if(!o.rej_p.insert(q).second) violation("reject-twice", "product %u was turned away twice", q); if(o.pending_p) o.pending_p--; else violation("reject-silent", "product %u was turned away for a reason other than a limit: %s", q, l.c_str());
      i64 mn = o.pn.max_since(o.done_at[q]), mb = o.pb.max_since(o.done_at[q]); if(!((LP && mn >= LP + 1) || (LM && mb > (i64)(LM*1048576)))) violation("reject-early", "product %u was turned away when at most %lld products (limit %d) and %lld bytes (limit %zu MB), itself included, were waiting", q, (long long)mn, LP, (long long)mb, LM); probe("rejected_processor"); o.pn.add(-1); o.pb.add(-(i64)o.size[q]); }
    for(int t=0;t<2;t++) if(l.find(strf("Rejecting additions to queue[%d]", t)) != l.npos){ if(!o.last_saved) violation("reject-unknown", "nothing was processed, but %s", l.c_str()); auto& r = t ? o.rej_q1 : o.rej_q0; if(!r.insert(o.last_saved).second) violation("reject-twice", "product %u was turned away twice from queue %d", o.last_saved, t); probe(t ? "rejected_server" : "rejected_filter"); if(t == 0){ if(!(LQ && o.qn.max_since(o.saved_at[o.last_saved]) >= LQ + 1)) violation("reject-early", "product %u was kept from the filters although at most %lld (limit %d) waited, itself included", o.last_saved, (long long)o.qn.max_since(o.saved_at[o.last_saved]), LQ); o.qn.add(-1); } } };
  g_open_hook = [](Proc *p, const std::string& f, int fl){ if(p != N0 || (fl & O_ACCMODE) == O_RDONLY) return; auto it = O->bypath.find(f.substr(f.rfind('/') + 1)); if(it == O->bypath.end() || f.find("/spool/") == f.npos) return; Over& o = *O; o.inhand = true; o.inhand_since = g_now; if(o.delay) sim_sleep(draw(S_FAULT, o.delay), false); while(g_now < o.hold) sim_sleep(std::min<u64>(o.hold - g_now, 200*MS), false); };
  g_fs_hook = [](Proc *p, const std::string& op, const std::string& f){ if(p != N0 || op != "close" || f.find("/spool/") == f.npos) return; auto it = O->bypath.find(f.substr(f.rfind('/') + 1)); if(it == O->bypath.end()) return; Over& o = *O; if(o.saved_at.count(it->second)) violation("processed-twice", "product %u was stored twice", it->second); o.inhand = false; o.saved.push_back(it->second); o.saved_at[it->second] = g_now; o.last_saved = it->second; o.pn.add(-1); o.pb.add(-(i64)o.size[it->second]); o.qn.add(1); };
  static std::map<u32,Client*> bycl; bycl.clear();
  g_wr_hook = [](Proc *p, int kind, u32 rip, const std::string& lab, const char *b, size_t n){ if(p != N0) return; if(kind == 2){ auto it = O->tk.find(rip); if(it != O->tk.end()) it->second.feed(std::string(b, n)); return; } };
  auto boot1 = [&]{ Proc *n = full_boot(w); N0 = n; auto prev = g_udp_hook; g_udp_hook = [prev](Proc *p, u32 g, u16 port, const std::string& d){ prev(p, g, port, d); Over& o = *O; u64 tot = 0; for(auto &x : W->rx.order) tot += x.size(); if(tot > o.seen){ o.seen = tot; for(int ch=0;ch<16;ch++) if(npchan.size() > (size_t)ch && npchan[ch].second == port && !W->rx.order[ch].empty()){ const Prod& q = W->rx.prods[W->rx.order[ch].back()]; o.done_at[q.seq] = o.last_done = g_now; o.size[q.seq] = q.saved.size(); o.pn.add(1); o.pb.add(q.saved.size()); } } }; if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str()); return n; };
  Proc *n = boot1();
  bool big = LM0 != 0; auto send = [&](int k, u64 gap){ for(int i=0;i<k;i++){ Prod p = w->fd.make(draw(S_PLAN, w->nch), big ? 90000 : 700, false); O->bypath[p.fbasename] = p.seq; w->sent.insert(p.seq); w->sent_at[p.seq] = g_now; wait_for([&]{ return udp_queue_len(n) == 0; }, 100*SEC, 2*MS); w->fd.send(p, big ? 3*MS : 1*MS); if(gap) sim_sleep(draw(S_PLAN, gap), false); } };
  (void)soft_p; std::vector<std::string> kinds; if(w->types & 1) kinds.push_back("NBS1"); if(w->types & 2) kinds.push_back("NBS2"); if(w->types & 4) kinds.push_back("EMWIN"); std::vector<Client*> cl; struct Stall { size_t announced; size_t started; bool partial; u64 t; }; std::map<Client*, std::vector<Stall>> stalls;
  int nc = kinds.empty() ? 0 : draw(S_PLAN, 4); for(int i=0;i<nc;i++){ u32 ip = 0x0A000200 + i; std::string kd = kinds[draw(S_PLAN, kinds.size())]; sim_add_host(strf("h%d", i).c_str(), ip); Client *k = client_new(kd, ip, strf("g%d", i)); O->tk[ip].kind = kd; bycl[ip] = k; cl.push_back(k); actor(k->p, "client", [k]{ client_run(k, 0x0A000001); }); }
  full_flow(w, 60*SEC, "after the start"); sim_sleep((8 + 2*nc)*SEC, false); u64 ready = g_now;
  for(auto &t : w->f1->notes){ O->bypath[w->rx.prods[w->rx.byseq[t.seq]].fbasename] = t.seq; if(!O->saved_at.count(t.seq)){ O->saved.push_back(t.seq); O->saved_at[t.seq] = t.t; } } O->pn.add(-O->pn.v); O->pb.add(-O->pb.v); O->qn.add(-O->qn.v); u64 lines0 = w->f1->notes.size(); (void)lines0;
  // the lines handed to the filter
  static std::function<void(Proc*, int, u32, const std::string&, const char*, size_t)> wr0; wr0 = g_wr_hook; g_wr_hook = [](Proc *p, int kind, u32 rip, const std::string& lab, const char *b, size_t n){ wr0(p, kind, rip, lab, b, n); if(p == N0 && kind == 1 && lab == "f1"){ u32 q = strtoul(std::string(b, std::min<size_t>(n, 12)).c_str(), 0, 10); auto it = O->saved_at.find(q); if(it != O->saved_at.end() && n > 20 && std::string(b, n).find("/spool/") != std::string::npos && b[n-1] == '\n' && O->lines[strf("%u", q)]++ == 0) O->qn.add(-1); } };
  auto drained = [&]{ return udp_queue_len(n) == 0 && w->rx.rx >= (u64)0 && O->pn.v == 0 && O->qn.v == 0; };
  int ph = 1 + draw(S_PLAN, 3); std::string what; bool emw = w->types & 4 && !kinds.empty();
  for(int i=0;i<ph;i++){
    leftp = leftq = leftb = 0; if(!nc && c["qdbfname"] == "q" && draw(S_PLAN, 3) == 2){ O->delay = 800*MS; w->f1->delay_max = draw(S_PLAN, 2) ? 400*MS : 0; send(5 + draw(S_PLAN, 20), 0); wait_for([&]{ return udp_queue_len(n) == 0; }, 100*SEC, 10*MS); sim_sleep(N.udp_jit + 1*SEC, false); clean_stop(n, 120*SEC, "with products waiting"); w->f1->delay_max = 0; limits(); leftp = O->pn.v; leftb = O->pb.v; leftq = O->qn.v; probe("restart_waiting", leftp + leftq); tr("restart: %lld and %lld products waiting, limits %d %d", (long long)leftp, (long long)leftq, LP, LQ); n = boot1(); what += strf(" [restart with %lld waiting, limits %d, %d]", (long long)leftp, LP, LQ); }
    bool hold_p = draw(S_FAULT, 2), hold_f = draw(S_FAULT, 2), slow_p = draw(S_FAULT, 2), slow_f = draw(S_FAULT, 2); u64 H = draw(S_FAULT, 4) == 3 ? 90*SEC : 8*SEC; std::vector<Client*> hc; for(auto k : cl) if(k->kind != "EMWIN" && draw(S_FAULT, 2)) hc.push_back(k);
    u64 t0 = g_now, until = t0 + 1000*SEC; if(hold_p){ fault_fired("storage_stalled"); O->hold = until; } if(hold_f){ fault_fired("filter_stalled"); w->f1->hang_until = until; } for(auto k : hc){ fault_fired("client_stalled"); k->hold_until = until; } if(slow_p){ fault_fired("storage_slow"); O->delay = 400*MS; } if(slow_f){ fault_fired("filter_slow"); w->f1->delay_max = 300*MS; }
    // a filter that is told to wait reads first what comes next
    int k = 1 + draw(S_PLAN, hold_f && pcap < 5000 ? 90 : 40); if(big) k = 1 + draw(S_PLAN, 80); static const u64 gp[] = {0, 50*MS, 500*MS}; send(k, gp[draw(S_PLAN, 3)]);
    if(draw(S_FAULT, 5) == 4){ fault_fired("hangup"); signal_proc(n, SIGHUP); }
    wait_for([&]{ return udp_queue_len(n) == 0; }, 100*SEC, 10*MS); sim_sleep(N.udp_jit + 3*SEC, false); expect_alive(n, "under overload");
    if(hold_p){ i64 v = O->pn.v - 1, b = O->pb.v; if(!O->inhand) v = O->pn.v; if(LP && v > std::max<i64>(LP, leftp)) violation("limit-exceeded", "%lld products wait for the processor, the limit is %d", (long long)v, LP); size_t mx = 0; for(auto &s : O->done_at) if(!O->saved_at.count(s.first) && !O->rej_p.count(s.first)) mx = std::max(mx, O->size[s.first]); if(LM && b - (i64)mx > std::max<i64>(LM*1048576, leftb)) violation("limit-exceeded", "%lld bytes wait for the processor, the limit is %zu MB", (long long)(b - (i64)mx), LM); R.probes["waiting_max"] = std::max<u64>(R.probes["waiting_max"], v); }
    if(hold_f && !hold_p && !slow_p){ i64 v = O->qn.v - 1; if(LQ && v > std::max<i64>(LQ, leftq)) violation("limit-exceeded", "%lld products wait for the filters, the limit is %d", (long long)v, LQ); R.probes["filter_waiting_max"] = std::max<u64>(R.probes["filter_waiting_max"], std::max<i64>(v, 0)); }
    if(!hold_p && !slow_p && !(emw && g_emw.delay_max)) for(auto q : hc){ Parser& t = O->tk[q->p->ip]; stalls[q].push_back({O->saved.size(), t.got.size(), t.mid || !t.buf.empty(), g_now}); }
    if(H > 60*SEC){ u64 r0 = g_now; sim_sleep(H, false); auto told = [&](const char *s){ for(auto &l : logs) if(l.first >= r0 && l.second.find(s) != l.second.npos) return true; return false; }; if(hold_p && O->inhand && O->inhand_since + SEC < O->last_done){ u32 lastseq = 0; u64 lt = 0; for(auto &d : O->done_at) if(d.second >= lt){ lt = d.second; lastseq = d.first; } if(w->nch == 1 && O->rej_p.count(lastseq) && !told("Hard size-limit reached for pctldb")) violation("overload-unreported", "for %.0f s the processor's queue was full and the periodic report did not say so", H/1e9); } probe("long_overload"); }
    what += strf(" [%d products%s%s%s%s, %zu stalled clients]", k, hold_p ? ", storage stalled" : "", hold_f ? ", filter stalled" : "", slow_p ? ", storage slow" : "", slow_f ? ", filter slow" : "", hc.size());
    if(draw(S_PLAN, 4) == 3){ O->hold = 0; w->f1->hang_until = 0; for(auto q : cl) q->hold_until = 0; // a filter waits in one sleep: it is woken by its own clock
    }
    O->hold = 0; O->delay = 0; w->f1->hang_until = 0; w->f1->delay_max = 0; for(auto q : hc) q->hold_until = 0;
    if(!wait_for([&]{ return drained() || !n->alive; }, 200*SEC + 3*SEC*k, 100*MS)) violation("not-drained", "after the overload %lld products still wait for the processor and %lld for the filters: %s", (long long)O->pn.v, (long long)O->qn.v, blocked_summary().c_str()); sim_sleep(emw ? 3*SEC + g_emw.delay_max*k : 3*SEC, false); expect_alive(n, "after an overload");
    for(int j=0;j<2;j++){ u32 q0 = w->fd.seq; send(1, 0); u32 q = w->fd.seq - 1; if(w->fd.seq == q0) q = q0; (void)q; u64 b = g_now; u32 q1 = *w->sent.rbegin(); if(!wait_for([&]{ return full_has(w, q1) || O->rej_p.count(q1) || O->rej_q0.count(q1); }, 30*SEC, 20*MS)) violation("not-resumed", "%.0f s after a product was sent with room in the queues it is not announced", (g_now - b)/1e9); if(!full_has(w, q1)) violation("not-resumed", "product %u was turned away although nothing was waiting", q1); } }
  drain_feed(n); sim_sleep(emw ? 20*SEC : 3*SEC, false); expect_alive(n, "at the end");
  wait_for([&]{ for(auto k : cl) if(!k->eof && k->kind != "EMWIN" && (k->ps.got.empty() || k->ps.got.back().seq != *w->sent.rbegin())) return false; return true; }, 600*SEC, 200*MS);
  // conservation and order
  std::vector<u32> told; for(auto &t : w->f1->notes) told.push_back(t.seq); std::vector<u32> want; for(auto q : O->saved) if(!O->rej_q0.count(q)) want.push_back(q);
  { std::set<u32> ts(told.begin(), told.end()); if(ts.size() != told.size()) violation("announce-duplicate", "a product was announced twice"); for(auto q : w->sent){ int a = ts.count(q), r = O->rej_p.count(q), f = O->rej_q0.count(q); if(a + r + f == 0) violation("lost-unreported", "product %u was neither announced nor said to be turned away", q); if(a + r + f > 1) violation("reject-wrong", "product %u was both announced and said to be turned away", q); } }
  if(told != want) violation("order", "the filter was not told of the products in the order in which they were stored");
  for(int ch=0;ch<16;ch++){ std::vector<u32> a, b; for(auto k : w->rx.order[ch]){ u32 q = w->rx.prods[k].seq; if(!O->rej_p.count(q)) a.push_back(q); } for(auto q : O->saved) if(w->rx.prods[w->rx.byseq[q]].chan == ch) b.push_back(q); if(a != b) violation("order", "channel %d: the products accepted were not processed in the order they arrived", ch); }
  full_check(w, false, true); full_files_whole(w);
  std::vector<u32> srv; std::map<u32,size_t> pos; for(auto q : O->saved) if(!O->rej_q1.count(q)){ pos[q] = srv.size(); srv.push_back(q); }
  for(size_t i=0;i<cl.size();i++){ Client *k = cl[i]; if(k->eof) violation("client-dropped", "%s client %zu was disconnected", k->kind.c_str(), i); if(!k->ps.err.empty()) violation("client-stream", "%s client: %s", k->kind.c_str(), k->ps.err.c_str()); std::vector<std::pair<u64,std::string>> mine; for(auto &l : logs) if(l.second.find("client thread") != l.second.npos && (l.second.find(strf("[h%zu]", i)) != l.second.npos || l.second.find(strf("[10.0.2.%zu]", i)) != l.second.npos)) mine.push_back(l); size_t hard = 0; for(auto &l : mine) if(l.second.find("Hard") != l.second.npos) hard++;
    std::vector<u32> exp; for(auto q : srv) if(O->saved_at[q] > ready && (k->kind != "EMWIN" || emwin_pass(q))) exp.push_back(q); std::vector<u32> got; if(k->kind == "EMWIN"){ std::map<std::string,std::vector<u32>> nm; for(auto q : exp) nm[emwin_name(q)].push_back(q); size_t at = 0; for(auto &g : k->ps.got){ if(g.t <= ready) continue; std::string x = g.name; for(auto &ch : x) ch = tolower(ch); size_t j = at; while(j < exp.size() && emwin_name(exp[j]) != x) j++; if(j >= exp.size()) continue; got.push_back(exp[j]); at = j + 1; } } else for(auto &g : k->ps.got) if(O->saved_at[g.seq] > ready) got.push_back(g.seq);
    std::set<u32> gs(got.begin(), got.end()); std::vector<u32> lost; for(auto q : exp) if(!gs.count(q)) lost.push_back(q); for(size_t j=1;j<got.size();j++) if(pos[got[j]] <= pos[got[j-1]]) violation("order", "%s client: product %u after %u", k->kind.c_str(), got[j], got[j-1]); if(gs.size() != got.size()) violation("client-duplicate", "%s client was sent a product twice", k->kind.c_str());
    for(auto q : got) if(k->kind != "EMWIN" && O->rej_q1.count(q)) violation("reject-wrong", "product %u was said to be turned away from the server but a client received it", q);
    probe("client_lost", lost.size()); if(!lost.empty() && !LC) violation("client-lost", "%s client %zu did not receive %zu products (%u ...) although its queue is not limited", k->kind.c_str(), i, lost.size(), lost[0]);
    if(hard && lost.empty()) violation("reject-wrong", "%s client %zu received everything but it was reported %zu times that its queue is full", k->kind.c_str(), i, hard);
    for(auto q : lost){ u64 t = O->saved_at[q]; bool ok = false; for(auto &l : mine) if(l.second.find("Hard") != l.second.npos && l.first + clp + 5*SEC >= t && l.first <= t + (emw ? 400*SEC : 5*SEC)) ok = true; if(!ok) violation("overload-unreported", "%s client %zu was not sent product %u and no report within the last %.0f s says that its queue was full", k->kind.c_str(), i, q, clp/1e9); }
    if(k->kind != "EMWIN" && LC) for(auto &s : stalls[k]){ std::set<u32> before; for(size_t j=0;j<s.announced;j++) before.insert(O->saved[j]); size_t d = 0; for(auto &g : k->ps.got) if(before.count(g.seq)) d++; i64 wv = (i64)d - (i64)s.started - (s.partial ? 1 : 0); if(wv > LC + (s.partial ? 0 : 1)) violation("limit-exceeded", "%lld products waited for a stalled %s client, the limit is %d", (long long)wv, k->kind.c_str(), LC); R.probes["client_waiting_max"] = std::max<u64>(R.probes["client_waiting_max"], std::max<i64>(0, wv)); } }
  sample(strf("limits: processor %d (%zu MB), queues %d, clients %d;%s; turned away %zu, %zu, %zu", LP, LM, LQ, LC, what.c_str(), O->rej_p.size(), O->rej_q0.size(), O->rej_q1.size())); for(auto k : cl) k->stop = true; clean_stop(n, 60*SEC, "after overload"); g_open_hook = nullptr; g_fs_hook = nullptr; g_wr_hook = nullptr; g_log_hook = nullptr;
}
