#include "cli.h"
void *lib_sym(Proc *p, const char *s);
// C23: the memory spool. Its contents are derived from the order of the announcements and the sizes alone.
struct Slot { size_t db; size_t gone; };                       // gone = index of the insertion that displaces it
static std::vector<Slot> spool_model(const std::vector<size_t>& sz, size_t ndb, size_t cap){
  std::vector<Slot> r; std::vector<std::vector<size_t>> db(ndb); size_t cur_ = 0, used = 0;
  for(size_t i=0;i<sz.size();i++){ if(used + sz[i] > cap){ cur_ = (cur_ + 1) % ndb; for(auto k : db[cur_]) r[k].gone = i; db[cur_].clear(); used = 0; } db[cur_].push_back(i); used += sz[i]; r.push_back({cur_, ~0ul}); }
  return r; }
SCENARIO(mspool){
  pick_sched_knobs(); net_knobs_lossless(); install_pipe_filters();
  Conf c("n0"); c["filterlist"] = "f1"; auto f1 = g_pf["f1"] = new PipeFilter; f1->slurp_content = false; RxModel rx; recv_conf(c, rx.o); rx.o.accept_set = false; c.o.erase("acceptpatt"); server_conf(c, 1);
  int type = 2 + draw(S_PLAN, 2); c["spooltype"] = strf("%d", type); c["mspoolbdb_dbcache_mb"] = "1"; static const int nd[] = {2, 1, 3, 4}; size_t ndb = nd[draw(S_PLAN, 4)]; c["mspoolbdb_ndb"] = strf("%zu", ndb); static const int ns[] = {4, 1, 2}; int nsl = ns[draw(S_PLAN, 3)]; c["mspoolbdb_nslots"] = strf("%d", nsl);
  static const int pm[] = {4, 1, 16, 40, 96}; int per = pm[draw(S_PLAN, 5)]; c["mspoolbdb_maxsize_per128"] = strf("%d", per); size_t cap = 8192ul*per; static const size_t mb[] = {600, 3000, 9000, 30000}; size_t maxbody = mb[draw(S_PLAN, 4)]; if(per == 96) maxbody = 30000; bool toobig = draw(S_PLAN, 3) == 2 && per < 16; if(!toobig && maxbody*2 > cap) maxbody = 600;
  c["client_queue_read_timeout_ms"] = draw(S_PLAN, 2) ? "10000" : "300"; c["client_write_timeout_ms"] = draw(S_PLAN, 2) ? "5000" : "800"; static const u64 fd_[] = {0, 3*MS, 200*MS, 1500*MS}; f1->delay_max = fd_[draw(S_PLAN, 4)];
  // what was looked for and not there
  struct Miss { u64 t; std::string path; }; static std::vector<Miss> *misses; std::vector<Miss> M; misses = &M; static size_t room, toolarge; room = toolarge = 0;
  g_log_hook = [](Proc *p, const std::string& l){ if(p->ip != 0x0A000001) return; size_t k = l.find("] not found in mspoolbdb"); if(k != std::string::npos){ size_t b = l.rfind('[', k), a = l.rfind(' ', b); if(b != std::string::npos) misses->push_back({g_now, l.substr(a == std::string::npos ? 0 : a + 1, b - (a == std::string::npos ? 0 : a + 1))}); } if(l.find("Trying to make room") != std::string::npos) room++; if(l.find("Error inserting") != std::string::npos || l.find("Droping") != std::string::npos) toolarge++; };
  Proc *n = boot(c); rx.install(n); auto h0 = g_udp_hook; std::vector<std::pair<u64,int>> comp; 
  g_udp_hook = [&](Proc *p, u32 grp, u16 port, const std::string& d){ size_t b[16]; for(int i=0;i<16;i++) b[i] = rx.order[i].size(); h0(p, grp, port, d); for(int i=0;i<16;i++) if(rx.order[i].size() > b[i]) comp.push_back({g_now, rx.order[i].back()}); };
  if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  static const double st[] = {0, 0.3}; n->io.on = true; n->io.p_tcp_short = st[draw(S_PLAN, 2)];
  Feed fd(&rx); int nc = draw(S_PLAN, 5); std::vector<Client*> cl; bool stopc = false; int live = 0;
  for(int i=0;i<nc;i++){ Client *k = client_new("NBS1", 0x0A000100 + i, strf("c%d", i)); Parser p0 = k->ps; static const u64 rd[] = {0, 5*MS, 300*MS}; k->rdelay = rd[draw(S_PLAN, 3)]; static const size_t ch[] = {16384, 4000}; k->chunk = ch[draw(S_PLAN, 2)]; int kind = draw(S_PLAN, 4); cl.push_back(k); live++;
    actor(k->p, "client", [&, k, p0, kind]{ if(draw(S_PLAN, 2)) sim_sleep(draw(S_PLAN, 8*SEC), false);
      while(!stopc){ client_run(k, 0x0A000001); k->past.push_back(k->ps); k->ps = p0; if(stopc) break; k->stop = false; k->done = k->eof = false; sim_sleep(500*MS + draw(S_PLAN, 2*SEC), false); }
      live--; });
    if(kind == 3) actor(k->p, "drops", [&, k]{ while(!stopc){ sim_sleep(2*SEC + draw(S_FAULT, 8*SEC), false); if(stopc) break; if(draw(S_FAULT, 2)){ fault_fired("client_stalls"); k->hold_until = g_now + draw(S_FAULT, 20*SEC); } else { fault_fired("client_leaves"); k->stop = true; } } }); }
  // a reader of the spool inside the daemon, as a service would be
  typedef int (*open_t)(char*); typedef size_t (*read_t)(int, void*, size_t); typedef int (*close_t)(int); open_t fo = (open_t)lib_sym(n, "nbsp_mspoolbdb_open"); read_t fr = (read_t)lib_sym(n, "nbsp_mspoolbdb_read"); close_t fc = (close_t)lib_sym(n, "nbsp_mspoolbdb_close"); bool direct = fo && fr && fc; if(!direct) probe("no_direct_reader");
  auto bypath = [&](const std::string& path){ size_t k = path.rfind('_'); u32 s = strtoul(path.c_str() + k + 1, 0, 10); auto it = rx.byseq.find(s); return it == rx.byseq.end() ? -1 : it->second; };
  auto rd_ = [&](const std::string& path, u64 slow, std::string& out){ std::string pp = path; int sd = fo(&pp[0]); if(sd < 0) return sd; char b[5000]; for(;;){ size_t k = fr(sd, b, 1 + draw(S_IO, sizeof b)); if(k == 0) break; out.append(b, k); if(slow) sim_sleep(draw(S_IO, slow), false); if(out.size() > 10000000) break; } fc(sd); return 0; };
  bool stopr = false, rdone = true; if(direct && draw(S_PLAN, 2)){ rdone = false; u64 slow = draw(S_PLAN, 2) ? 30*MS : 0; Fiber *sf = spawn(n, "service", [&, slow]{ while(!stopr){ sim_sleep(20*MS + draw(S_IO, 400*MS), false); if(f1->notes.empty()) continue; std::string path = f1->notes[draw(S_IO, 3) ? f1->notes.size() - 1 : draw(S_IO, f1->notes.size())].fpath, got; int q = bypath(path); if(q < 0) continue; int s = rd_(path, slow, got); if(s == 0 && got != rx.content(rx.prods[q])) violation("reader-content", "a service read %zu bytes of %s that differ from the %zu transmitted", got.size(), path.c_str(), rx.content(rx.prods[q]).size()); probe(s == 0 ? "service_read" : "service_displaced"); } rdone = true; return (void*)0; }); sf->sigmask = ~0ull; }
  int np = 6 + draw(S_PLAN, 60); if(per >= 40) np += 30; static const u64 gp[] = {0, 20*MS, 400*MS, 2*SEC}; u64 gap = gp[draw(S_PLAN, 4)]; int nch = 1 + draw(S_PLAN, 3);
  for(int i=0;i<np;i++){ size_t b = maxbody; if(toobig && draw(S_PLAN, 8) == 7){ b = 0; } Prod p; if(b) p = fd.make(draw(S_PLAN, nch), b); else { p = rand_prod(fd.seq++, draw(S_PLAN, nch), 600, false); p.body += rand_bytes(cap + draw(S_PLAN, 4000), p.seq); p.fragsz = 4000; prod_build(p, fd.sbn[p.chan]); fault_fired("product_larger_than_spool"); }
    fd.send(p, 300*US); wait_for([&]{ return !n->alive || udp_queue_len(n) == 0; }, 60*SEC, 5*MS); if(gap) sim_sleep(draw(S_PLAN, gap), false); if(draw(S_PLAN, 30) == 29){ signal_proc(n, SIGHUP); fault_fired("reload"); } }
  drain_feed(n); f1->delay_max = 0; for(auto k : cl){ k->rdelay = 0; k->hold_until = 0; } expect_alive(n, "while storing in memory");
  size_t want = 0; for(auto &q : comp) if(rx.content(rx.prods[q.second]).size() <= cap) want++;
  if(!wait_for([&]{ return !n->alive || f1->notes.size() >= want; }, 240*SEC, 200*MS)){ expect_alive(n, "while announcing"); violation("not-announced", "%zu products that fit were received complete and %zu were announced (%s)", want, f1->notes.size(), blocked_summary().c_str()); }
  sim_sleep(3*SEC, false); expect_alive(n, "after announcing"); if(f1->notes.size() > want && !room) violation("announced-not-stored", "%zu products that fit were received and %zu announced", want, f1->notes.size()); if(!f1->bad.empty()) violation("announce-format", "malformed filter line: %s", hexs(f1->bad[0], 200).c_str());
  if(room && per < 40) violation("needless-displacement", "the spool made room %zu time(s) although its data never exceeded %zu bytes in each part", room, cap);
  // the announced products in order, their sizes, and what each was told about
  std::vector<size_t> sz; std::map<std::string,size_t> at; for(size_t i=0;i<f1->notes.size();i++){ auto &t = f1->notes[i]; auto it = rx.byseq.find(t.seq); if(it == rx.byseq.end()) violation("announce-unknown", "%s", t.raw.c_str()); if(at.count(t.fpath)) violation("announce-duplicate", "%s announced twice", t.fpath.c_str()); at[t.fpath] = i; size_t s = rx.content(rx.prods[it->second]).size(); if(s > cap && !room) violation("over-limit", "%s of %zu bytes is kept where %zu are allowed", t.fpath.c_str(), s, cap); sz.push_back(s); }
  auto mod = spool_model(sz, ndb, cap); auto ucount = [&](u64 t){ size_t u = 0; for(auto &q : comp) if(q.first <= t && rx.content(rx.prods[q.second]).size() <= cap) u++; return u; };
  auto may_miss = [&](size_t i, u64 t){ return room || (mod[i].gone != ~0ul && mod[i].gone < ucount(t)); };
  for(size_t i=0;i<f1->notes.size();i++){ auto &t = f1->notes[i]; if(split(t.raw, ' ').size() != 8) violation("announce-format", "no size in the filter line: %s", t.raw.c_str()); if(t.size == sz[i]) continue; if(t.size) violation("announce-size", "%s has %zu bytes and was announced with %zu", t.fpath.c_str(), sz[i], t.size); if(!may_miss(i, t.t)) violation("missing-early", "%s was announced as not available before newer products displaced it", t.fpath.c_str()); probe("displaced_before_filter"); }
  for(auto &m : M){ auto it = at.find(m.path); if(it == at.end()) continue; if(!may_miss(it->second, m.t)) violation("missing-early", "%s was not found before newer products displaced it", m.path.c_str()); probe("displaced_before_read"); }
  // clients: everything received is whole, right and in order
  stopr = stopc = true; for(auto k : cl) k->stop = true; if(!wait_for([&]{ return !n->alive || (live == 0 && rdone); }, 120*SEC, 100*MS)){ expect_alive(n, "while services read"); violation("reader-stuck", "a reader of the spool never finished: %s", blocked_summary().c_str()); }
  for(auto k : cl) for(auto &ps : k->past){ if(!ps.err.empty()) violation("client-format", "%s: %s", k->p->name.c_str(), ps.err.c_str()); ssize_t last = -1;
    for(auto &g : ps.got){ auto it = rx.byseq.find(g.seq); if(it == rx.byseq.end()) violation("client-unknown", "%s received product %u that was never transmitted", k->p->name.c_str(), g.seq); const Prod& p = rx.prods[it->second]; if(g.data != rx.content(p)) violation("client-content", "%s received %zu bytes of product %u that differ from the %zu transmitted", k->p->name.c_str(), g.data.size(), g.seq, rx.content(p).size());
      ssize_t i = -1; for(size_t j=0;j<f1->notes.size();j++) if(f1->notes[j].seq == g.seq) i = j; if(i < 0) violation("client-unknown", "%s received product %u that was not announced", k->p->name.c_str(), g.seq); if(last >= 0 && i != last + 1) violation(i <= last ? "client-repeat" : "client-gap", "%s received product %u where %u was due", k->p->name.c_str(), g.seq, f1->notes[last+1].seq); last = i; probe("client_products"); } }
  // at rest, exactly the newest products that fit are there, whole
  if(direct){ std::vector<int> found(sz.size(), 0); bool fin = false; Fiber *sf = spawn(n, "reader", [&]{ for(size_t i=0;i<sz.size();i++){ std::string got; int s = rd_(f1->notes[i].fpath, 0, got); found[i] = s == 0; if(s == 0 && got != rx.content(rx.prods[rx.byseq[f1->notes[i].seq]])) violation("spool-content", "%s: %zu bytes that differ from the %zu transmitted", f1->notes[i].fpath.c_str(), got.size(), sz[i]); } fin = true; return (void*)0; }); sf->sigmask = ~0ull;
    if(!wait_for([&]{ return fin || !n->alive; }, 120*SEC, 50*MS)){ expect_alive(n, "while reading the spool"); violation("reader-stuck", "the spool could not be read: %s", blocked_summary().c_str()); }
    size_t tot = 0; bool seen = false; for(size_t i=0;i<sz.size();i++){ if(found[i]) tot += sz[i]; bool model = mod[i].gone == ~0ul; if(!room && model != (bool)found[i]) violation(model ? "displaced-early" : "kept-too-long", "%s (%zu of %zu, %zu bytes) is %s the spool of %zu x %zu bytes", f1->notes[i].fpath.c_str(), i + 1, sz.size(), sz[i], model ? "not in" : "still in", ndb, cap); if(seen && !found[i]) violation("displaced-newer", "%s is gone but an older product is still in the spool", f1->notes[i].fpath.c_str()); if(found[i]) seen = true; if(i + 1 == sz.size() && !found[i]) violation("displaced-newest", "the newest product %s is not in the spool", f1->notes[i].fpath.c_str()); }
    if(tot > ndb*cap) violation("over-limit", "%zu bytes in a spool limited to %zu", tot, ndb*cap); probe("kept", tot); state_mark((tot/512)*100 + ndb*10 + nsl); }
  probe("made_room", room); probe("too_large", toolarge); n->io.on = false; sample(strf("type %d, %zu x %zu bytes, %zu products, %d clients, %zu not found", type, ndb, cap, sz.size(), nc, M.size())); clean_stop(n, 60*SEC, "with a memory spool"); g_log_hook = nullptr;
}
