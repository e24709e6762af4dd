#include "full.h"
// Garbage, damaged and hostile frames among well-formed ones (C03).
struct GF { int cmd = 3, tt = 7, block = 0, off = 0, dsize = -1, code = 0, nfrag = 0, flags = 0; u32 seq = 0, orig = 0; bool psh = true; std::string data; };
static std::string gf_build(const GF& g, u32 sbn, int chan){
  std::string r; r += (char)0x14; r += (char)g.tt; be16(r, 16); be16(r, g.block); be16(r, g.off); be16(r, g.dsize < 0 ? g.data.size() : g.dsize); r += (char)draw(S_FAULT, 2); r += (char)0; be32(r, g.seq);
  if(g.psh){ std::string s; s += (char)1; s += (char)0; be16(s, 36); s += (char)1; s += (char)g.flags; be16(s, 0); be16(s, 0); s += (char)draw(S_FAULT, 256); s += (char)draw(S_FAULT, 256); be16(s, g.code); be16(s, g.nfrag); be16(s, 0); s += (char)0; s += (char)0; be32(s, g.orig); be32(s, 0); be32(s, 0); be16(s, 0); be16(s, 0); r += s; }
  return sbn_frame(sbn, g.cmd, r + g.data, chan); }
static std::string blob(size_t n){ return rand_bytes(n, draw(S_FAULT, 1u<<20)); }
static std::string ghdr(){   // product headers: valid, damaged, hostile
  static const char *id[] = {"SXUS20","ftus80","TIGE","../../", "A/B.CD", "SXUS2\x80", "......", "%s%n%s", "SXUS20XXXXXXXXXXXX"}; static const char *st[] = {"KWBC","kOuN","../x","/etc","....","K B","KWBCKWBC","K\0BC"}; static const char *tm[] = {"010203","999999","1234","abcdef","01/203","0102034567"}; static const char *bb[] = {""," PAA"," ../../"," PAAPAAPAA"," P A A", "  "}; static const char *aw[] = {"","AFDLWX\r\r\n","../../\r\r\n","/ETC/P\r\r\n","GRIB\r\r\n","A\r\r\n","AFD\0WX\r\r\n", "ABCDEFGHIJKLMNOP", "A/../B\r\r\n", "A/B/CD\r\r\n", "A%n%s%\r\r\n"}; static const char *nl[] = {"\r\r\n","\n","","\r\r"};
  auto w = [](u64 n){ return draw(S_FAULT, 3) ? 0 : draw(S_FAULT, n); };
  std::string h = std::string(id[w(9)]) + (w(5) ? "  " : " ") + st[w(8)] + " " + tm[w(6)] + bb[w(6)] + nl[w(4)] + aw[draw(S_FAULT, 11)]; if(draw(S_FAULT, 6) == 5) h = blob(draw(S_FAULT, 80)); if(draw(S_FAULT, 8) == 7) h.resize(draw(S_FAULT, h.size()+1)); return h; }
static std::string garbage(RxModel& rx, const Prod *base, int chan, bool *taints){
  *taints = false; GF g; static const u32 seqs[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu}; auto seq = [&]{ u64 k = draw(S_FAULT, 3); return k == 0 ? seqs[draw(S_FAULT, 5)] : k == 1 ? 500000u + (u32)draw(S_FAULT, 4) : 600000u + (u32)draw(S_FAULT, 100000); };
  switch(draw(S_FAULT, 9)){
    case 0: { static const size_t z[] = {0, 1, 15, 16, 17, 31, 32, 67, 68, 69, 1000, 5199, 5200, 5201, 9000}; fault_fired("frame_random_bytes"); return blob(z[draw(S_FAULT, 15)]); }
    case 1: if(base){ std::string f = base->frames[draw(S_FAULT, base->frames.size())]; *taints = true; fault_fired("frame_truncated"); f.resize(draw(S_FAULT, f.size())); return f; } break;
    case 2: if(base){ std::string f = base->frames[draw(S_FAULT, base->frames.size())]; *taints = true; fault_fired("frame_extended"); return f + blob(1 + draw(S_FAULT, 200)); } break;
    case 3: if(base){ std::string f = base->frames[draw(S_FAULT, base->frames.size())]; *taints = true; fault_fired("frame_bit_flips"); int n = 1 + draw(S_FAULT, 4); for(int i=0;i<n;i++){ size_t o = draw(S_FAULT, 2) ? draw(S_FAULT, std::min<size_t>(f.size(), 130)) : draw(S_FAULT, f.size()); if(o >= 28 && o < 32) o = 28; /* not the number of another product */ f[o] ^= 1 << draw(S_FAULT, 8); } if(draw(S_FAULT, 2)){ u32 ck = 0; for(int i=0;i<14;i++) ck += (u8)f[i]; f[14] = ck >> 8; f[15] = ck; } return f; } break;
    case 4: { g.cmd = draw(S_FAULT, 3) ? 3 : draw(S_FAULT, 256); g.tt = draw(S_FAULT, 256); g.block = draw(S_FAULT, 2) ? draw(S_FAULT, 3) : draw(S_FAULT, 65536); g.psh = draw(S_FAULT, 4) ? g.block == 0 : draw(S_FAULT, 2); static const int off[] = {0, 1, 20, 21, 23, 24, 25, 44, 45, 46, 57, 58, 59, 64, 200, 5000, 32767, 32768, 65535}; g.off = off[draw(S_FAULT, 19)]; static const int dz[] = {-1, -1, -1, 0, 1, 65535, 32768}; g.data = blob(draw(S_FAULT, 2) ? draw(S_FAULT, 100) : draw(S_FAULT, 5000)); g.dsize = dz[draw(S_FAULT, 7)]; g.seq = seq(); g.nfrag = draw(S_FAULT, 2) ? draw(S_FAULT, 4) : draw(S_FAULT, 65536); fault_fired("frame_odd_fields"); return gf_build(g, draw(S_FAULT, 2) ? draw(S_FAULT, 1u<<30) : 0xffffffffu, chan); }
    case 5: { // a product start whose control header is of any length
      std::string h = (draw(S_FAULT, 2) ? "@" + std::string(23, 'c') : std::string()) + ghdr(); if(draw(S_FAULT, 2)){ h.resize(draw(S_FAULT, 120), 'x'); } g.off = draw(S_FAULT, 4) ? h.size() : draw(S_FAULT, 140); g.data = h + blob(draw(S_FAULT, 3) ? draw(S_FAULT, 60) : draw(S_FAULT, 3000)); g.seq = seq(); g.nfrag = draw(S_FAULT, 3) ? 0 : draw(S_FAULT, 65536); g.tt = draw(S_FAULT, 2) ? 7 : 1 | draw(S_FAULT, 256); fault_fired("frame_hostile_control_header"); return gf_build(g, draw(S_FAULT, 100000), chan); }
    case 6: { std::string h = (draw(S_FAULT, 2) ? "@" + std::string(23, 'c') : std::string()) + ghdr(); g.data = h + blob(draw(S_FAULT, 2) ? 0 : draw(S_FAULT, 3000)); g.seq = seq(); g.tt = draw(S_FAULT, 2) ? 7 : 3; g.nfrag = draw(S_FAULT, 3); g.flags = draw(S_FAULT, 2) ? 16 : 0; g.orig = draw(S_FAULT, 2) ? 0 : seq(); g.code = draw(S_FAULT, 65536); fault_fired("frame_hostile_header"); return gf_build(g, draw(S_FAULT, 100000), chan); }
    case 7: { // compressed frames: not a stream, truncated, a stream that expands far beyond a frame
      std::string h = "SXUS20 KWBC 010203\r\r\n", z; switch(draw(S_FAULT, 4)){ case 0: z = blob(draw(S_FAULT, 500)); break; case 1: z = zcomp(std::string(4000000, 'z')); break; case 2: z = zcomp(h + std::string(20000, 'y')); break; default: z = zcomp(h + blob(3000)); z.resize(draw(S_FAULT, z.size())); } if(z.size() > 5000) z.resize(5000);
      bool ctl = draw(S_FAULT, 2); g.data = (ctl ? h : std::string()) + z; g.off = ctl ? h.size() : 0; g.tt = 16 | (draw(S_FAULT, 2) ? 7 : 3); g.seq = seq(); g.nfrag = draw(S_FAULT, 3); fault_fired("frame_bad_compression"); return gf_build(g, draw(S_FAULT, 100000), chan); }
    default: { // stray frames: a middle or end block, or an abort, of a product that is not being sent
      g.psh = false; g.block = draw(S_FAULT, 2) ? 1 + draw(S_FAULT, 3) : draw(S_FAULT, 65536); if(!g.block) g.block = 1; static const int tt[] = {2, 4, 6, 8, 32, 3, 16|6, 0}; g.tt = tt[draw(S_FAULT, 8)]; g.seq = seq(); g.data = blob(draw(S_FAULT, 200)); fault_fired("frame_stray"); return gf_build(g, draw(S_FAULT, 100000), chan); } }
  fault_fired("frame_random_bytes"); return blob(draw(S_FAULT, 6000)); }
SCENARIO(garble){
  pick_sched_knobs(); net_knobs_lossless(); bool serve = draw(S_PLAN, 3) == 2; Full *w = full_new(serve ? FULL_SBN | FULL_SERVE : FULL_SBN); if(!serve) w->types = 0, w->c.o.erase("servertype"); RxModel& rx = w->rx; recv_conf(w->c, rx.o); rx.o.accept_set = false; w->c.o.erase("acceptpatt"); if(draw(S_PLAN, 2)) w->c["verbose"] = "3";
  Proc *n = full_boot(w); int nch = 1 + draw(S_PLAN, 7); std::set<u32> tainted; std::map<u32,int> must; std::map<std::string,bool> bad; struct C { int prod = -1, next = 0; } ch[16]; size_t junk = 0;
  g_udp_hook = [&](Proc *p, u32, u16 port, const std::string& d){ if(p->ip != n->ip) return; int k = -1; for(size_t i=0;i<npchan.size();i++) if(npchan[i].second == port) k = i; if(k < 0) return; C& c = ch[k]; auto it = rx.meta.find(d); if(it == rx.meta.end()){ c.prod = -1; junk++; return; } auto &m = it->second; if(m.start){ c.prod = m.prod; c.next = 0; } if(c.prod != m.prod || c.next != m.block){ c.prod = -1; return; } c.next++; if(m.end){ must[rx.prods[m.prod].seq]++; c.prod = -1; } };
  if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  std::vector<Client*> cl; std::vector<std::string> kinds; if(w->types & 1) kinds.push_back("NBS1"); if(w->types & 2) kinds.push_back("NBS2"); if(!kinds.empty()){ Client *k = client_new(kinds[draw(S_PLAN, kinds.size())], 0x0A000200, "g0"); cl.push_back(k); actor(k->p, "client", [k]{ client_run(k, 0x0A000001); }); sim_sleep(8*SEC, false); }
  int left = nch, rate = 1 + draw(S_PLAN, 6); static const u64 gaps[] = {0, 500*US, 20*MS}; u64 gap = gaps[draw(S_PLAN, 3)]; int np = 3 + draw(S_PLAN, 12);
  for(int k=0;k<nch;k++) spawn(cur->proc, strf("feed%d", k), [&, k]{ 
    auto junkf = [&](const Prod *b, bool live){ bool t; std::string g = garbage(rx, b, k, &t); if(b && t){ tainted.insert(b->seq); } (void)live; if(!rx.meta.count(g)) inject_frame(k, g); sim_sleep(20*US, false); };
    for(int i=0;i<np;i++){ Prod p = w->fd.make(k, draw(S_PLAN, 6) == 5 ? 40000 : 5000); rx.add(p); w->sent.insert(p.seq); bool mid = !draw(S_FAULT, 3); std::string dropped;
      if(draw(S_FAULT, 3)){ int q = 1 + draw(S_FAULT, rate); for(int j=0;j<q;j++){ u32 keep = w->fd.seq; w->fd.seq = 0x5a000000u + keep; Prod o = w->fd.make(k, 4000); w->fd.seq = keep + 1; junkf(draw(S_FAULT, 2) ? &o : nullptr, false); } }
      for(size_t b=0;b<p.frames.size();b++){ if(mid && draw(S_FAULT, 4) == 3) junkf(draw(S_FAULT, 2) ? &p : nullptr, true); inject_frame(k, p.frames[b]); sim_sleep(20*US + (gap ? draw(S_PLAN, gap) : 0), false); } }
    left--; return (void*)0; });
  while(left) sim_sleep(50*MS, false); drain_feed(n, 5*SEC); expect_alive(n, "while garbage arrives"); probe("garbage_datagrams", junk);
  // every channel still works
  for(int k=0;k<7;k++){ for(int i=0;i<2;i++){ Prod p = w->fd.make(k, 3000); rx.add(p); for(auto &f : p.frames){ inject_frame(k, f); sim_sleep(50*US, false); } if(!wait_for([&]{ return !n->alive || full_has(w, p.seq); }, 10*SEC, 20*MS) || !n->alive){ expect_alive(n, "after garbage"); violation("channel-dead", "10 s after it was sent a well-formed product on channel %d, after garbage on %d channels, is not announced", k, nch); } } }
  sim_sleep(3*SEC, false); auto &notes = w->f1->notes; std::map<u32,int> cnt; size_t odd = 0; std::string spool = w->c.root + "/spool/";
  if(!w->f1->bad.empty()) violation("announce-format", "malformed filter line: %s", hexs(w->f1->bad[0], 200).c_str());
  for(auto &t : notes){ 
    auto v = split(t.fpath.substr(std::min(t.fpath.size(), spool.size())), '/'); if(t.fpath.compare(0, spool.size(), spool) || v.size() != 2 || v[0] == ".." || v[0] == "." || v[1] == ".." || v[1] == ".") violation("announce-path", "announced at %s, outside the spool", hexs(t.fpath, 100).c_str());
    auto it = rx.byseq.find(t.seq); if(it == rx.byseq.end()){ odd++; continue; } const Prod& p = rx.prods[it->second]; cnt[t.seq]++; if(tainted.count(t.seq)) continue;
    if(t.fname != p.fname || t.fpath != spool + p.fname.substr(0,4) + "/" + p.fbasename || (t.type & 255) != p.type || (t.cat & 255) != p.cat || t.chan != p.chan || (t.code & 255) != (p.code & 255)) violation("announce-codes", "product %u announced as %s", t.seq, t.raw.c_str());
    if(!t.read_ok || t.content != rx.content(p)) violation("content", "product %u: stored %zu bytes that differ from the %zu sent", t.seq, t.content.size(), rx.content(p).size()); }
  for(auto &m : must){ int c = cnt[m.first]; if(!c) violation("product-lost", "product %u arrived whole, with no other frame between its own on channel %d, and is not announced", m.first, rx.prods[rx.byseq[m.first]].chan); if(c > 1 && !tainted.count(m.first)) violation("announce-duplicate", "product %u was announced %d times", m.first, c); }
  if(!g_path_escapes.empty()) violation("path-escape", "the daemon tried to write %s", hexs(g_path_escapes[0], 200).c_str());
  for(auto &f : list_files(spool.substr(0, spool.size()-1))) if(split(f, '/').size() != 4) violation("stray-file", "%s", hexs(f, 100).c_str());
  for(auto k : cl){ if(!k->ps.err.empty()) violation("client-format", "%s: %s", k->kind.c_str(), k->ps.err.c_str()); if(k->eof) violation("client-dropped", "a %s client was disconnected while garbage was broadcast", k->kind.c_str()); k->stop = true; }
  probe("odd_products_announced", odd); probe("clean_products", must.size()); sample(strf("%d channels, %zu garbage datagrams, %zu products whole, %zu announced", nch, junk, must.size(), notes.size())); clean_stop(n, 60*SEC, "after garbage");
}
