#include "full.h"
// Malformed input from master servers and from the local input pipe (C12).
static std::string blob(size_t n){ return rand_bytes(n, draw(S_FAULT, 1u<<20)); }
static u32 wr(u64 n){ return draw(S_FAULT, n); }
static std::string env(u32 id, u32 size, u32 ck, const std::string& d){ std::string s; be32(s, id); be32(s, size); be32(s, ck); return s + d; }
static u32 bsum(const std::string& d){ u32 c = 0; for(unsigned char x : d) c += x; return c; }
static const u32 badsize[] = {0, 1, 7, 8, 27, 53, 54, 55, 70000, 65537+54, 0x7fffffff, 0x80000000u, 0xfffffff3u, 0xfffffff4u, 0xfffffff8u, 0xffffffffu};
static bool name_ok(const std::string& s){ if(s.empty()) return false; for(unsigned char c : s) if(c <= ' ' || c == 127) return false; return true; }
struct Hostile {
  Full *w; u32 gseq = 0x5a000000u; std::map<u32, std::set<std::string>> ok; std::set<u32> named;     // contents that may be announced; announcements of names without content (notification master, pipe)
  struct Pk { int b, nb; std::string d; }; std::map<u32, std::vector<Pk>> sent;   // what a file-oriented slave was sent; with a lost connection any packet may be lost, so a product is whole when its blocks appear in order
  void nbs1(const std::string& s){ if(s.size() < 66 || rd32(s, 0) != 1 || rd32(s, 4) != s.size() - 12 || rd32(s, 62) != s.size() - 66) return; auto &v = sent[rd32(s, 12)]; v.push_back({rd16(s, 60), rd16(s, 58), s.substr(66)});
    for(size_t i=0;i<v.size();i++) if(v[i].b == 1){ int n = v[i].nb, k = 1; std::string d = v[i].d; if(n == 1){ ok[rd32(s, 12)].insert(d); continue; } for(size_t j=i+1;j<v.size() && k<n;j++) if(v[j].b == k + 1 && (k + 1 < n || v[j].nb == n)){ d += v[j].d; if(++k == n) ok[rd32(s, 12)].insert(d); } } }
  std::string hname(){ static const char *nm[] = {"kwbc_sxus20-afdlwx.010203_77", "kwbc_sxus20.010203_77", "kwbcsxus20010203", "kwbc_sxus20", "../kwbc_sxus20.010203_77", "kwbc/../../x_sxus20.010203_7", "../_x.1", ".._x.1", "._x.1", "_x.1", "_.1", ".", "..", "/etc_x.1", "KWBC_%s%n%d.010203_77", "kwbckwbckwbckwbc_s.1", "k_abcdefghijkl.1", "k_a-bcdefghijklmnop.1", "k b_sxus 20.01", "k\nb_sxus20.01", "kwbc_sx\n4 1 1 1 1 a b.1", "\xff\xfe_\x80.\x81", "k\tc_s.1", "kwbc_a/b.1", "a.b_c", "kwbc_sxus20.0102/3"}; std::string s = nm[wr(26)]; if(!wr(6)) s = blob(wr(38)); if(!wr(6)) s.resize(37, 'x'); return s; }
  void m1(const std::string& s){ tr("hostile packet: %u block %d of %d, %u bytes, z %d", rd32(s, 12), rd16(s, 60), rd16(s, 58), rd32(s, 62), s[57]); nbs1(s); w->m->q.push_back(s); }
  void master1(){ u32 q = ++gseq; auto pk = [&](u32 seq, const std::string& nm, int z, int nb, int b, const std::string& d){ return nbs1_packet(seq, wr(256), wr(256), wr(256), wr(8), nm, z, nb, b, d); };
    switch(wr(9)){
      case 0: fault_fired("master_random_bytes"); w->m->q.push_back(blob(1 + wr(3000))); return;
      case 1: { fault_fired("master_bad_size"); std::string d = pk(q, "kwbc_sxus20.010203_5", 0, 1, 1, blob(wr(500))).substr(12); u32 z = badsize[wr(16)]; if(z == d.size()) z++; w->m->q.push_back(env(1, z, bsum(d), d)); if(wr(2)) w->m->q.push_back(blob(wr(200000))); return; }
      case 2: { fault_fired("master_bad_type"); std::string d = pk(q, "kwbc_sxus20.010203_5", 0, 1, 1, blob(wr(500))); static const u32 id[] = {0, 2, 3, 0xffffffffu, 0x01000000}; d[0] = id[wr(4)] >> 24; d[3] = id[wr(5)]; if(d[0] == 0 && d[3] == 1) d[3] = 9; w->m->q.push_back(d); return; }
      case 3: { fault_fired("master_cut_off"); std::string d = pk(q, "kwbc_sxus20.010203_5", 0, 2, 1, blob(1 + wr(60000))); d.resize(wr(d.size())); if(!d.empty()) w->m->q.push_back(d); w->m->q.push_back(""); return; }
      case 4: { fault_fired("master_bit_flips"); std::string d = pk(q, strf("kwbc_sxus20.010203_%u", q % 1000), 0, 1, 1, blob(1 + wr(2000))); int n = 1 + wr(4); for(int i=0;i<n;i++){ size_t o = wr(66); if(o >= 12 && o < 16) o = 17; d[o] ^= 1 << wr(8); } m1(d); return; }
      case 5: { fault_fired("master_block_disorder"); int nb = 2 + wr(4); std::vector<std::string> v; std::string nm = strf("kwbc_sxus20.010203_%u", q % 1000); for(int i=0;i<nb;i++) v.push_back(blob(1 + wr(3000))); std::vector<int> o; for(int i=1;i<=nb;i++) o.push_back(i); int k = wr(6), x = wr(nb), y = wr(nb); if(k == 0) o.erase(o.begin() + x); else if(k == 1) o.insert(o.begin() + x, o[y]); else if(k == 2) std::swap(o[x], o[y]); else if(k == 3) o.resize(x);
        for(int i : o){ int cnt = nb, b = i; static const int odd[] = {0, 1, 65535, 2, 32768}; if(k == 4) cnt = odd[wr(5)]; if(k == 5){ if(wr(2)) cnt = odd[wr(5)]; else b = odd[wr(5)]; } m1(pk(!wr(12) ? q + 0x01000000 : q, nm, 0, cnt, b, v[i-1])); } return; }
      case 6: { fault_fired("master_hostile_name"); m1(pk(q, hname(), 0, 1, 1, blob(wr(400)))); return; }
      case 7: { fault_fired("master_bad_compression"); std::string z; switch(wr(4)){ case 0: z = blob(wr(500)); break; case 1: z = zcomp(std::string(8000000, 'z')); break; case 2: z = zcomp(blob(5000)); z.resize(wr(z.size())); break; default: z = zcomp(std::string(70000, 'q')); } m1(pk(q, strf("kwbc_sxus20.010203_%u", q % 1000), 1, 1, 1, z)); return; }
      default: { fault_fired("master_bad_block_size"); std::string d = pk(q, "kwbc_sxus20.010203_5", 0, 1, 1, blob(wr(500))).substr(12); u32 z = badsize[wr(16)]; for(int i=0;i<4;i++) d[50+i] = z >> (24 - 8*i); std::string s = env(1, d.size(), bsum(d), d); m1(s); return; } } }
  void m2(const std::string& s){ if(s.size() >= 12 + 28 && rd32(s, 0) == 2 && rd32(s, 4) == s.size() - 12 && bsum(s.substr(12)) == rd32(s, 8)){ std::string f(s.substr(20, 19).c_str()), p(s.substr(39).c_str()); if(f.size() <= 18 && 39 + p.size() < s.size() && name_ok(f) && name_ok(p)) named.insert(rd32(s, 12)); } w->m->q.push_back(s); }
  void master2(){ u32 q = ++gseq; auto body = [&](const std::string& f, const std::string& p, bool nul){ std::string d; be32(d, q); d += (char)wr(256); d += (char)wr(256); d += (char)wr(256); d += (char)wr(8); std::string n = f; n.resize(19, 0); return d + n + p + (nul ? std::string(1, 0) : ""); };
    static const char *nm[] = {"kwbc_sxus20-afdlwx", "", "a b", "a\nb", "1 1 1 1\n5 x", "%s%n%s%n", "\xff\x80", "../../x"}; static const char *pt[] = {"/x/y/kwbc_sxus20.1", "", "/", "a b", "/x\n5 1 1 1 1 f p\n", "../../../../etc/passwd", "%s%n", "relative"}; std::string f = wr(3) ? nm[wr(8)] : blob(wr(20)), p = wr(3) ? pt[wr(8)] : std::string(wr(400), 'p');
    switch(wr(7)){
      case 0: fault_fired("master_random_bytes"); w->m->q.push_back(blob(1 + wr(3000))); return;
      case 1: { fault_fired("master_bad_size"); std::string d = body("kwbc_sxus20", "/x/y", true); u32 z = badsize[wr(16)]; if(z == d.size()) z++; w->m->q.push_back(env(2, z, bsum(d), d)); if(wr(2)) w->m->q.push_back(blob(wr(20000))); return; }
      case 2: { fault_fired("master_bad_type"); std::string d = body("kwbc_sxus20", "/x/y", true); w->m->q.push_back(env(1 + 2*wr(2), d.size(), bsum(d), d)); return; }
      case 3: { fault_fired("master_cut_off"); std::string d = body("kwbc_sxus20", "/x/y", true); d = env(2, d.size(), bsum(d), d); d.resize(wr(d.size())); if(!d.empty()) w->m->q.push_back(d); w->m->q.push_back(""); return; }
      case 4: { fault_fired("master_bad_checksum"); std::string d = body("kwbc_sxus20", "/x/y", true); w->m->q.push_back(env(2, d.size(), bsum(d) + 1 + wr(1000), d)); return; }
      case 5: { fault_fired("master_hostile_name"); std::string d = body(f, p, wr(3)); m2(env(2, d.size(), bsum(d), d)); return; }
      default: { fault_fired("master_short_record"); std::string d = body(std::string(19, 'f'), std::string(wr(300), 'p'), wr(2)); if(wr(2)) d.resize(wr(std::min<size_t>(d.size(), 40)) + 1); m2(env(2, d.size(), bsum(d), d)); return; } } }
  void pipe1(){ u32 q = ++gseq; std::string line, raw; auto nums = [&]{ return strf("%u %d %d %d %d", q, wr(256), wr(256), wr(256), wr(8)); }; bool valid = true; std::string f = "kwbc_sxus20-afdlwx", p = "/x/y/kwbc_sxus20-afdlwx.010203_7";
    static const char *nm[] = {"", "a\nb", "a\tb", "\x80\xff", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "%n%s"}; static const char *pt[] = {"/x/y/", "/", "", "/x/y/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "y\n9 1 1 1 1 a b", "x\ny", "../../..", "a\tb", "\x01\x02"};
    switch(wr(8)){
      case 0: fault_fired("pipe_random_bytes"); w->inq.push_back(blob(1 + wr(3000))); return;
      case 1: { fault_fired("pipe_bad_size"); static const u32 z[] = {0, 1, 5, 0x100000, 0x7fffffff, 0x7ffffffe, 0x80000000u, 0xffffffffu, 0xfffffffeu, 65536}; line = nums() + " " + f + " " + p; be32(raw, z[wr(10)]); raw += line; if(wr(2)) raw += "\n"; w->inq.push_back(raw); return; }
      case 2: { fault_fired("pipe_no_terminator"); line = nums() + " " + f + " " + p; be32(raw, line.size()); w->inq.push_back(raw + line + "x"); return; }
      case 3: { fault_fired("pipe_cut_off"); raw = infeed_msg(nums() + " " + f + " " + p); raw.resize(wr(raw.size())); if(!raw.empty()) w->inq.push_back(raw); return; }
      case 4: { fault_fired("pipe_few_fields"); static const char *l[] = {"", " ", "x", "1", "1 2 3 4 5", "1 2 3 4 5 ", "1 2 3 4 5 6", "     ", "1 2 3 4 x f p", "a b c d e f g", "1 2 3 4 5  "}; w->inq.push_back(infeed_msg(l[wr(11)])); return; }
      case 5: fault_fired("pipe_hostile_name"); f = wr(3) ? nm[wr(6)] : blob(wr(25)); while(!f.empty() && f[0] == ' ') f.erase(0, 1); valid = f.size() <= 18 && name_ok(f); break;
      case 6: { fault_fired("pipe_hostile_path"); p = wr(3) ? pt[wr(9)] : std::string(wr(400), 'p'); valid = name_ok(p); break; }
      default: { fault_fired("pipe_embedded_zero"); line = nums() + " " + f + " " + p; line[wr(line.size())] = 0; w->inq.push_back(infeed_msg(line)); return; } }
    if(valid) named.insert(q); w->inq.push_back(infeed_msg(nums() + " " + f + " " + p)); }
};
SCENARIO(hostile){
  pick_sched_knobs(); net_knobs_lossless(); Full *w = full_new(); bool serve = draw(S_PLAN, 2); if(!serve) w->types = 0, w->c.o.erase("servertype"); static const int md[] = {2, 4, 6, 3, 5, 7}; int want = md[draw(S_PLAN, 6)];
  w->modes = want; w->c["feedmode"] = strf("%d", want); Smaster *good = nullptr; w->c.o.erase("masterservers"); if(!(want & 2) && w->m) w->m->stop = true;
  if(want & 2){ sim_add_host("m9", 0x0A00000A); if(!w->m) w->m = smaster_new("n9", 0x0A00000A); int ty = draw(S_PLAN, 3) == 2 ? 2 : 1; w->m->proto = strf("NBS%d", ty); w->c["masterservers"] = strf("%d,m9,2210,2,0,1", ty); if(draw(S_PLAN, 3) == 2){ good = smaster_new("n8", 0x0A000009); sim_add_host("m8", 0x0A000009); w->c["masterservers"] += "|1,m8"; } }
  if(draw(S_PLAN, 3) == 2){ w->c["savezacceptpatt"] = "zzz"; w->rx.o.savez_set = true; w->rx.o.savez = "zzz"; } if(draw(S_PLAN, 3) == 2) w->c["slave_reject_duplicates"] = "0"; if(draw(S_PLAN, 2)) w->c["verbose"] = "3";
  Proc *n = full_boot(w); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  Hostile h; h.w = w; w->on_master = [&](const std::string& s){ h.nbs1(s); }; std::vector<std::string> kinds; if(w->types & 1) kinds.push_back("NBS1"); if(w->types & 2) kinds.push_back("NBS2"); if(!kinds.empty()) for(int i=0;i<2;i++){ Client *k = client_new(kinds[draw(S_PLAN, kinds.size())], 0x0A000200 + i, strf("g%d", i)); k->ps.nocheck = true; w->cl.push_back(k); actor(k->p, "client", [k]{ client_run(k, 0x0A000001); }); }
  full_flow(w, 60*SEC, "after the start"); if(good) wait_for([&]{ return !good->fds.empty(); }, 30*SEC, 50*MS);
  int rounds = 2 + draw(S_PLAN, 12); std::set<u32> must; std::set<u32> tainted; u64 gap = draw(S_PLAN, 3) == 2 ? 3*SEC : 300*MS;
  for(int r=0;r<rounds;r++){ int k = 1 + draw(S_FAULT, 3); for(int i=0;i<k;i++){ int how = want & 6; if(how == 6) how = draw(S_FAULT, 2) ? 4 : 2; if(how == 2){ if(w->m->proto == "NBS1") h.master1(); else h.master2(); } else h.pipe1(); if(!draw(S_FAULT, 2)) full_send(w, 3000); }
    if(want & 1 && draw(S_PLAN, 2)){ Prod p = w->fd.make(draw(S_PLAN, w->nch), 3000); w->sent.insert(p.seq); must.insert(p.seq); w->fd.send(p, 300*US); }
    if(good && !good->fds.empty()){ Prod p = w->fd.make(0, 3000); w->rx.add(p); w->sent.insert(p.seq); must.insert(p.seq); for(auto &s : nbs1_packets(p, w->rx.content(p))) good->q.push_back(s); }
    sim_sleep(1*MS + draw(S_PLAN, gap), false); }
  full_flow(w, 90*SEC, "after malformed input"); sim_sleep(5*SEC, false); expect_alive(n, "after malformed input"); if(want & 2){ w->m->q.clear(); }
  if(!g_path_escapes.empty()) violation("path-escape", "the daemon tried to write %s", hexs(g_path_escapes[0], 200).c_str());
  if(!w->f1->bad.empty()) violation("announce-format", "malformed filter line: %s", hexs(w->f1->bad[0], 200).c_str());
  std::string spool = w->c.root + "/spool/"; std::map<u32,int> cnt; size_t odd = 0;
  for(auto &t : w->f1->notes){ auto it = w->rx.byseq.find(t.seq);
    if(it == w->rx.byseq.end()){ odd++; if(h.named.count(t.seq)) continue; auto o = h.ok.find(t.seq); if(o == h.ok.end()) violation("announce-unknown", "announced, though no product like this was sent whole: %s", hexs(t.raw, 300).c_str());
      if(t.fpath.compare(0, spool.size(), spool) || t.fpath.find("/../") != std::string::npos || t.fpath.find("/./") != std::string::npos || t.fname.find('/') != std::string::npos) violation("announce-path", "announced at %s, outside the spool", hexs(t.fpath, 100).c_str());
      if(!t.read_ok || !o->second.count(t.content)){ std::string z; bool same = false; for(auto &c : o->second) if(zdecomp(c, z, 20000000) && z == t.content) same = true; if(!same && t.read_ok) violation("content-unknown", "product %u is announced with %zu bytes that were not sent whole", t.seq, t.content.size()); } continue; }
    const Prod& p = w->rx.prods[it->second]; cnt[t.seq]++; std::string path = spool + p.fname.substr(0,4) + "/" + p.fbasename, wantd = w->rx.content(p);
    if(t.fname != p.fname || t.fpath != path || (t.type & 255) != p.type || (t.cat & 255) != p.cat || (t.code & 255) != (p.code & 255) || t.chan != p.chan) violation("announce-codes", "product %u announced as %s", t.seq, hexs(t.raw, 200).c_str());
    if(!t.read_ok || t.content != wantd) violation("content", "product %u: stored %zu bytes that differ from the %zu sent", t.seq, t.content.size(), wantd.size()); if(cnt[t.seq] > 1) violation("announce-duplicate", "product %u was announced again", t.seq); }
  for(u32 q : must) if(!cnt[q]) violation("product-lost", "product %u, sent whole by another source than the one that misbehaves, is not announced", q);
  for(auto k : w->cl) k->stop = true; probe("odd_products_announced", odd); sample(strf("feeds %d, %d rounds, %zu announced, %zu of them odd", want, rounds, w->f1->notes.size(), odd)); clean_stop(n, 60*SEC, "after malformed input");
}
