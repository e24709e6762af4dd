#include "full.h"
// The same activity again and again: afterwards descriptors, threads, connections and memory are what they were (C17).
u64 heap_mark(); std::map<std::string,int> heap_sites(Proc *p, u64 from, u64 to);
SCENARIO(leak){
  pick_sched_knobs(); net_knobs_lossless(); int mode = draw(S_PLAN, 3); Full *w = full_new((mode == 2 ? 0 : FULL_SBN) | FULL_NOFIFO | (draw(S_PLAN, 3) ? FULL_SERVE : 0)); w->rx.o.lenient = true;
  Proc *n = full_boot(w); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str()); sim_sleep(2*SEC, false);
  std::vector<std::string> kinds; if(w->types & 1) kinds.push_back("NBS1"); if(w->types & 2) kinds.push_back("NBS2"); if(w->types & 4) kinds.push_back("EMWIN");
  enum { PRODS, BIG, ABORTED, GAPS, COMEGO, STAY, STALL, GARBAGE, UNID, RELOAD, RELOADDEV, DIE, MASTERDROP, MASTERBAD, PIPEBAD, IDLE, NACT };
  static const char *nm[] = {"products", "large products", "aborted", "lost frames", "clients come and go", "clients stay", "clients stall", "garbage clients", "silent clients", "reload", "reload with another filter", "filter dies", "master disconnects", "master garbage", "pipe garbage", "idle"};
  struct Act { int k; u64 a, b; }; std::vector<Act> plan; int na = 1 + draw(S_PLAN, 4); std::string what; u64 mbody = draw(S_PLAN, 2) ? 3000 : 20000;
  for(int i=0;i<na;i++){ int k = draw(S_PLAN, NACT); if(kinds.empty() && k >= COMEGO && k <= UNID) k = PRODS; if(!w->m && (k == MASTERDROP || k == MASTERBAD)) k = PRODS; if(!(w->modes & 4) && k == PIPEBAD) k = PRODS; if(!(w->modes & 1) && (k == ABORTED || k == GAPS)) k = PRODS; plan.push_back({k, draw(S_PLAN, 4), draw(S_PLAN, 1000)}); what += strf("%s%s", what.empty() ? "" : ", ", nm[k]); }
  bool clients = false; for(auto &a : plan) if(a.k >= COMEGO && a.k <= UNID) clients = true;
  int cid = 0; std::vector<Client*> cl; auto leave = [&]{ for(auto c : cl) c->stop = true; for(auto c : cl) wait_for([&]{ return c->done; }, 60*SEC, 50*MS); cl.clear(); };
  auto client = [&](const std::string& kind){ Client *c = client_new(kind, 0x0A000100 + cid, strf("c%d", cid)); cid++; c->ps.nocheck = true; cl.push_back(c); return c; };
  auto go = [&](Client *c){ actor(c->p, "client", [c]{ client_run(c, 0x0A000001); c->done = true; }); };
  auto prods = [&](int k, size_t body){ for(int i=0;i<k;i++){ full_send(w, body); sim_sleep(20*MS + draw(S_PLAN, 300*MS), false); } };
  auto run = [&](const Act& a){ switch(a.k){
    case PRODS: prods(4 + a.b % 12, mbody); break;
    case BIG: prods(2, 150000); break;
    case ABORTED: case GAPS: for(int i=0;i<2 + (int)a.a;i++){ Prod p; for(int q=0;q<20;q++){ p = w->fd.make(draw(S_PLAN, w->nch), 9000); if(p.frames.size() > 2) break; } w->rx.add(p); size_t cut = p.frames.size() > 1 ? 1 + a.b % (p.frames.size() - 1) : 1; for(size_t j=0;j<p.frames.size();j++){ if(a.k == GAPS && j == cut) continue; if(a.k == ABORTED && j == cut){ std::string s = rx_abort_frame(p, ++w->fd.sbn[p.chan], a.a & 1 ? 32 : 8); w->rx.abort_frame(s, p.seq); inject_frame(p.chan, s); break; } inject_frame(p.chan, p.frames[j]); sim_sleep(300*US, false); } sim_sleep(200*MS, false); } prods(3, 2000); break;
    case COMEGO: for(int i=0;i<2 + (int)a.a;i++){ Client *c = client(kinds[(a.b + i) % kinds.size()]); go(c); sim_sleep(draw(S_FAULT, 4*SEC), false); if(draw(S_FAULT, 2)) prods(1, mbody); if(draw(S_FAULT, 3) == 2){ tcp_reset_all(c->p->ip, 0x0A000001); fault_fired("tcp_reset"); } c->stop = true; } break;
    case STAY: for(int i=0;i<1 + (int)a.a;i++) go(client(kinds[(a.b + i) % kinds.size()])); wait_for([&]{ for(auto c : cl) if(!c->done && c->ident_at == NEVER) return false; return true; }, 10*SEC, 50*MS); prods(4, mbody); sim_sleep(SEC, false); break;
    case STALL: { Client *c = client(kinds[a.b % kinds.size()]); c->hold_until = NEVER; go(c); fault_fired("client_stalled"); sim_sleep(8*SEC, false); prods(3, 150000); sim_sleep(a.a * 5*SEC, false); break; }
    case GARBAGE: for(int i=0;i<1 + (int)a.a;i++){ Client *c = client(kinds[0]); c->ident = a.b & 1 ? std::string(600, 'x') : std::string("GET / HTTP/1.0\r\n\r\n"); go(c); fault_fired("client_garbage"); } sim_sleep(10*SEC, false); prods(2, mbody); break;
    case UNID: for(int i=0;i<1 + (int)a.a;i++){ Client *c = client(kinds[0]); c->ident = ""; go(c); fault_fired("client_unidentified"); } sim_sleep(a.b % 2 ? 15*SEC : SEC, false); prods(2, mbody); break;
    case RELOAD: for(int i=0;i<1 + (int)a.a;i++){ signal_proc(n, SIGHUP); fault_fired("hangup"); sim_sleep(draw(S_FAULT, 5*SEC), false); prods(2, mbody); } break;
    case RELOADDEV: { std::string f = "n0/dev/d1"; if(!g_pf[f]){ g_pf[f] = new PipeFilter; g_pf[f]->slurp_content = false; } spew(f, "#!\n"); chmod(f.c_str(), 0755); FifoFilter *ff = nullptr; if(a.b & 1){ std::string q = strf("n0/dev/w%d", cid); mkfifo(q.c_str(), 0600); ff = fifo_filter(q, strf("w%d", cid++)); wait_for([&]{ return ff->opened; }, 2*SEC); }
      signal_proc(n, SIGHUP); fault_fired("hangup"); sim_sleep(3*SEC, false); prods(4, mbody); if(a.a & 1 && ff) ff->stop = true; sim_sleep(SEC, false); unlink(f.c_str()); if(ff){ unlink(ff->path.c_str()); ff->stop = true; } signal_proc(n, SIGHUP); sim_sleep(3*SEC, false); prods(2, mbody); break; }
    case DIE: w->f1->die = true; fault_fired("filter_died"); prods(4, 500); break;
    case MASTERDROP: for(int i=0;i<1 + (int)a.a;i++){ w->m->q.push_back(""); fault_fired("master_drop"); sim_sleep(draw(S_FAULT, 4*SEC), false); prods(2, mbody); } break;
    case MASTERBAD: for(int i=0;i<1 + (int)a.a;i++){ w->m->q.push_back(i & 1 ? std::string(3000, 'x') : nbs_envelope(1, std::string(20, 'q'))); fault_fired("master_garbage"); sim_sleep(2*SEC, false); if(draw(S_FAULT, 2)) w->m->q.push_back(nbs1_packet(0x7a000000u + cid++, 4, 1, 0, 1, "kwbc_sxus20.010203_7", 0, 3, 1, std::string(500, 'p'))); sim_sleep(2*SEC, false); } break;
    case PIPEBAD: for(int i=0;i<1 + (int)a.a;i++){ w->inq.push_back(std::string(300, 'z')); fault_fired("pipe_garbage"); sim_sleep(1*SEC, false); } break;
    default: sim_sleep(62*SEC, false); } };
  auto quiesce = [&](const char *when){ leave(); w->f1->die = false; full_flow(w, 180*SEC, when); drain_feed(n); 
    wait_for([&]{ return w->inq.empty() && (!w->m || (w->m->q.empty() && !w->m->fds.empty())) ; }, 60*SEC, 100*MS); sim_sleep(clients ? 95*SEC : 20*SEC, false); expect_alive(n, when); };
  prods(3, 150000); prods(20, mbody); quiesce("at the start");
  struct M { u64 fds, dirs, thr, zomb, conns, heap, bytes, mark; std::string fl; }; std::vector<M> ms;
  auto measure = [&]{ M m; m.fds = open_fds(n); m.fl = fd_listing(n); m.dirs = n->dirs; m.thr = m.zomb = 0; for(auto f : all_fibers()) if(f->proc == n){ if(f->st != Fiber::DONE) m.thr++; else if(!f->detached && !f->joined) m.zomb++; } m.conns = tcp_conns(0x0A000001); m.heap = n->heap_blocks; m.bytes = n->heap_live; m.mark = heap_mark(); ms.push_back(m); tr("cycle %zu: fds %zu dirs %d threads %zu unjoined %zu connections %zu blocks %zu bytes %zu", ms.size(), (size_t)m.fds, (int)m.dirs, (size_t)m.thr, (size_t)m.zomb, (size_t)m.conns, (size_t)m.heap, (size_t)m.bytes); };
  for(int c=0;c<6;c++){ for(auto &a : plan) run(a); quiesce(strf("after cycle %d of %s", c, what.c_str()).c_str()); measure(); }
  probe("cycles", 6); sample(strf("6 cycles of: %s; %zu descriptors, %zu threads, %zu heap blocks", what.c_str(), (size_t)ms.back().fds, (size_t)ms.back().thr, (size_t)ms.back().heap));
  auto grows = [&](u64 M::*f){ for(size_t i=2;i<ms.size();i++) if(ms[i].*f <= ms[i-1].*f) return false; return true; };
  if(grows(&M::fds)) violation("leak-descriptors", "open descriptors %zu -> %zu over repetitions of: %s | %s", (size_t)ms[1].fds, (size_t)ms.back().fds, what.c_str(), ms.back().fl.c_str());
  if(grows(&M::dirs)) violation("leak-directories", "open directories grow over repetitions of: %s", what.c_str());
  if(grows(&M::thr)) violation("leak-threads", "threads %zu -> %zu over repetitions of: %s | %s", (size_t)ms[1].thr, (size_t)ms.back().thr, what.c_str(), blocked_summary().c_str());
  if(grows(&M::zomb)) violation("leak-unjoined", "terminated threads never joined grow %zu -> %zu over repetitions of: %s", (size_t)ms[1].zomb, (size_t)ms.back().zomb, what.c_str());
  if(grows(&M::conns)) violation("leak-connections", "connections %zu -> %zu over repetitions of: %s", (size_t)ms[1].conns, (size_t)ms.back().conns, what.c_str());
  if(grows(&M::heap)){ std::string s; for(auto &k : heap_sites(n, ms[1].mark, ms.back().mark)) s += strf(" %s x%d", k.first.c_str(), k.second); violation("leak-memory", "allocated blocks %zu -> %zu over repetitions of: %s |%s", (size_t)ms[1].heap, (size_t)ms.back().heap, what.c_str(), s.c_str()); }
  clean_stop(n, 60*SEC, "after repeated activity");
}
