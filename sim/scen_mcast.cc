#include "feed.h"
extern "C" void proc_stdin(Proc *p, const std::string& path);
// The multicast tool sending files to one or two daemons (C22).
SCENARIO(mcast){
  pick_sched_knobs(); bool lossy = draw(S_FAULT, 3) == 2; if(lossy) pick_net_knobs(true); else net_knobs_lossless(); if(lossy && draw(S_FAULT, 2) == 0) N.p_dup = N.p_reorder = 0; bool messy = N.p_dup > 0 || N.p_reorder > 0; install_pipe_filters();
  int nd = 1 + draw(S_PLAN, 2), ns = 1 + draw(S_PLAN, 3), savefmt = draw(S_PLAN, 2); struct D { Conf *c; PipeFilter *f; Proc *p; std::vector<std::string> got[8]; }; static std::vector<D> ds; ds.clear(); ds.resize(nd);
  for(int i=0;i<nd;i++){ D& d = ds[i]; d.c = new Conf(strf("n%d", i)); auto &c = *d.c; std::string f = strf("f%d", i + 1); c["filterlist"] = f; d.f = g_pf[f] = new PipeFilter; d.f->slurp_content = true; c["spoolsavefmt"] = strf("%d", savefmt); if(draw(S_PLAN, 2)) c["spooldb_slots"] = "0"; static const char *mm[] = {"8192", "100000", "1000000"}; c["memfileminsize"] = mm[draw(S_PLAN, 3)]; d.p = boot(c); if(!node_ready(d.p)) violation("boot", "daemon did not start: %s", d.p->logs.empty() ? "" : d.p->logs.back().c_str()); }
  g_udp_hook = [&](Proc *p, u32, u16 port, const std::string& s){ for(auto &d : ds) if(d.p->ip == p->ip) for(size_t i=0;i<npchan.size();i++) if(npchan[i].second == port) d.got[i].push_back(s); };
  struct F { u32 seq; int chan; bool radar, noname = false; std::string fname, path, data; Proc *by; u64 ended = 0; size_t nf() const { return (data.size() + 24)/4000 + 1; } }; static std::vector<F> fs; fs.clear(); static int done; done = 0; mkdir("shared", 0755); u64 gap = draw(S_PLAN, 2) ? 0 : 300*MS; std::map<std::string,int> codes;
  for(int i=0;i<ns;i++){ int chan = i; bool radar = chan == 2 ? draw(S_PLAN, 2) : 0; u32 seq = 1000*(i+1) + draw(S_PLAN, 500); if(draw(S_PLAN, 6) == 5) seq = 4294967000u - 100*i; int k = 1 + draw(S_PLAN, 4); std::vector<std::string> av = {"nbspmcast"}; static const char *rate[] = {"0", "1", "10", "-1"}; av.push_back("-u"); av.push_back(rate[draw(S_PLAN, 4)]); if(radar) av.push_back("-r"); else { av.push_back("-a"); av.push_back(strf("224.0.1.%d", chan + 1)); av.push_back("-p"); av.push_back(strf("%d", 1201 + chan)); } av.push_back("-s"); av.push_back(strf("%u", seq)); if(draw(S_PLAN, 3) == 2){ av.push_back("-f"); av.push_back(strf("%u", 4294967294u)); }
    int dup = draw(S_PLAN, 5);
    for(int j=0;j<k;j++){ F f; f.seq = seq + 1 + j; f.chan = chan; f.radar = radar; f.path = strf("shared/%d.%d", i, j); Prod p = rand_prod(f.seq, chan, 100, false); p.ccb.clear(); p.ctrlhdr = p.compressed = false; 
      size_t n; switch(draw(S_PLAN, 6)){ case 0: n = draw(S_PLAN, 60); break; case 1: n = draw(S_PLAN, 4000); break; case 2: n = 4000*(1 + draw(S_PLAN, 4)) - 24 - draw(S_PLAN, 3) + draw(S_PLAN, 3); break; case 3: n = 4000*(1 + draw(S_PLAN, 3)) - 24; break; case 4: n = draw(S_PLAN, 20000); break; default: n = draw(S_PLAN, 150000); } u32 sq = 0; p.body.clear(); prod_build(p, sq); size_t h = p.plain.size(); p.body = rand_bytes(n > h ? n - h : draw(S_PLAN, 3), f.seq*31ull); for(size_t x=0;x<p.body.size() && x<40;x++) p.body[x] = 'a' + (u8)p.body[x]%26; if(p.awips.empty() && p.notawips.empty() && p.body.size()) p.body[0] = 1; prod_build(p, sq); f.data = p.plain; if(p.body.size() > 2) f.fname = p.fname; if(draw(S_PLAN, 12) == 11){ f.noname = true; static const char *hh[] = {"no header here ", "", "\x40\x0c------------------SXUS20 KWBC 121212\r\r\n"}; f.data = hh[draw(S_PLAN, 3)] + f.data.substr(std::min(n, h)); } spew(f.path, f.data); av.push_back(f.path); fs.push_back(f); if(dup == 4 && draw(S_PLAN, 3) == 2 && j + 1 < k){ j++; F g = f; g.seq = seq + 1 + j; av.push_back(g.path); fs.push_back(g); } }
    std::string in; if(draw(S_PLAN, 3) == 2){ std::string l; while(av.size() && !av.back().compare(0, 7, "shared/")){ l = av.back() + (l.empty() && draw(S_PLAN, 2) ? "" : "\n") + (draw(S_PLAN, 4) == 3 ? "\n" : "") + l; av.pop_back(); } in = strf("shared/list%d", i); spew(in, l); }
    size_t last = fs.size(); Proc *a = new_proc(strf("n9.send%d", i), 0x0A00000A); actor(a, "sender", [=]{ if(gap) sim_sleep(draw(S_PLAN, gap), false); Proc *p = start_node("nbspmcast", strf("n9.mc%d", i), 0x0A00000A, av); if(!in.empty()) proc_stdin(p, in); if(draw(S_FAULT, 3) == 2){ p->io.on = true; p->io.p_stall = 0.05; p->io.stall_max = 50*MS; } wait_exit(p, 100*SEC); for(size_t x = 0; x < last; x++) if(fs[x].chan == chan) fs[x].ended = g_now; if(p->alive) violation("mcast-hang", "the tool did not end: %s", blocked_summary().c_str()); if(p->exit_code != 0) violation("mcast-fail", "the tool failed with %d: %s", p->exit_code, p->logs.empty() ? "" : p->logs.back().c_str()); done++; }); }
  wait_for([&]{ return done == ns; }, 150*SEC, 50*MS); N.p_drop = N.p_dup = N.p_reorder = 0; size_t announced = 0;
  for(auto &d : ds) drain_feed(d.p);
  for(auto &d : ds){ expect_alive(d.p, "while receiving"); bool lost = lossy || g_udp_overflow[d.p->ip]; if(!d.f->bad.empty()) violation("announce-format", "malformed filter line: %s", hexs(d.f->bad[0], 200).c_str()); std::string root = d.c->root; std::set<u32> miss; std::vector<std::string> bad; for(auto &m : read_missing(root + "/stats/missing", &bad)) miss.insert(m.seq);
    for(auto &n : d.f->notes){ F *f = nullptr; for(auto &g : fs) if(g.seq == n.seq && g.chan == n.chan) f = &g; if(!f) violation("mcast-invented", "announced and never sent: %s", n.raw.c_str()); }
    for(auto &f : fs){ size_t c = 0; const Note *nn = nullptr; for(auto &n : d.f->notes) if(n.seq == f.seq && n.chan == f.chan){ c++; nn = &n; }
      std::string ccb("\x40\x0c", 2); ccb.resize(24); std::string want = savefmt ? f.data : ccb + f.data; announced += c; size_t i0 = 0, nxt = 0; bool started = false, clean = true, whole = false, later = false;          // what this daemon consumed of it
      for(auto &s : d.got[f.chan]){ u32 q = rd32(s, 28); if(q != f.seq){ if(started && (s[17] & 1)) later = true; if(started && !whole) clean = false; continue; } if(s[17] & 1){ if(started) clean = clean && whole; started = true; } size_t b = rd16(s, 20); if(b == nxt){ nxt++; if(nxt == f.nf()) whole = true; } else if(b > nxt) clean = false; } (void)i0;
      if(c > 1 && !messy) violation("mcast-repeat", "%s: product %u was announced %zu times", root.c_str(), f.seq, c); if(f.noname){ if(c && nn->content != want) violation("mcast-content", "%s: product %u without a header was stored with different bytes", root.c_str(), f.seq); continue; } if(c && !f.fname.empty() && nn->fname != f.fname) violation("mcast-name", "%s: product %u was named %s instead of %s", root.c_str(), f.seq, nn->fname.c_str(), f.fname.c_str()); if(c == 0 && !lost) violation("mcast-lost", "%s: product %u of %zu bytes (%zu frames, header %s) sent on channel %d of a lossless network was not announced%s; consumed whole: %d; %s", root.c_str(), f.seq, f.data.size(), f.nf(), hexs(f.data, 30).c_str(), f.chan, miss.count(f.seq) ? " but recorded as missing" : "", whole, d.p->logs.empty() ? "" : d.p->logs.back().c_str());
      if(c && (!nn->read_ok || nn->content != want)) violation("mcast-content", "%s: product %u was stored with %zu bytes that differ from the %zu sent", root.c_str(), f.seq, nn->content.size(), want.size()); if(c && !messy && miss.count(f.seq)) violation("mcast-both", "%s: product %u was announced and recorded as missing", root.c_str(), f.seq);
      if(!c && !messy && started && whole && clean) violation("mcast-lost", "%s: product %u of %zu bytes was consumed whole and not announced", root.c_str(), f.seq, f.data.size()); if(!c && started && later && !miss.count(f.seq)) violation("mcast-unrecorded", "%s: product %u was neither announced nor recorded as missing", root.c_str(), f.seq); if(c && f.radar != (nn->type == 5)) violation("mcast-type", "%s: product %u was announced with type %d", root.c_str(), f.seq, nn->type); } }
  probe("mcast_sent", fs.size()*nd); probe("mcast_announced", announced); sample(strf("%zu files by %d senders to %d daemons, %zu announced%s", fs.size(), ns, nd, announced, lossy ? ", lossy" : "")); for(auto &d : ds) clean_stop(d.p, 60*SEC, "after reception");
}
