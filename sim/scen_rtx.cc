#include "full.h"
// Retransmissions of received and missed products, over restarts and the discarding of old records (C04).
SCENARIO(rtx){
  pick_sched_knobs(); net_knobs_lossless(); Full *w = full_new(FULL_SBN | FULL_NOFIFO); w->types = 0; w->c.o.erase("servertype"); bool file = draw(S_PLAN, 3) != 2; int mins = 1 + draw(S_PLAN, 2); if(file) w->c["rtxdb_dbfname"] = "rtx.db"; else w->c.o.erase("rtxdb_dbfname"); w->c["rtxdb_slots"] = "1024"; w->c["rtxdb_truncate_minutes"] = strf("%d", mins); std::string patt; if(draw(S_PLAN, 5) == 4){ static const char *pp[] = {"kwbc", "kwbc|koun", ".*,!kwbc"}; patt = pp[draw(S_PLAN, 3)]; w->c["rtxdbacceptpatt"] = patt; }
  auto tracked = [&](const Prod& p){ return patt.empty() || patt_match(patt, p.fname); }; u64 keep = mins*60*SEC - 6*SEC;
  struct Rec { bool ok; u64 t; }; std::map<u32,Rec> known; struct T { u32 seq, orig, root; bool whole, tracked; int want; /* 1 must, 0 must not, -1 either */ }; std::vector<T> tx; std::map<u32, std::vector<u32>> group; std::map<u32, Prod> base; std::map<u32,size_t> open_; size_t restarts = 0, ign = 0, rec = 0;
  std::map<u32,int> cnt; size_t seen = 0; auto scan = [&]{ for(; seen < w->f1->notes.size(); seen++) cnt[w->f1->notes[seen].seq]++; };
  Proc *n = full_boot(w); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  u32 seq = 1000; u32 sbn[16]; for(auto &x : sbn) x = 100; std::vector<u32> roots; int steps = 6 + draw(S_PLAN, 30); int nch = 1 + draw(S_PLAN, 3); std::map<int,u32> unfinished; size_t whole_rtx = 0, injected = 0;
  for(int i=0;i<steps;i++){
    u64 k = draw(S_PLAN, 8);
    if(k == 6){ u64 z = draw(S_PLAN, 3) ? draw(S_PLAN, 20*SEC) : draw(S_PLAN, 150*SEC); sim_sleep(z, false); continue; }
    if(k == 7 && i && file && restarts < 4){ for(auto &u : unfinished) if(u.second && known.count(u.second) && !known[u.second].ok) known.erase(u.second); unfinished.clear(); clean_stop(n, 60*SEC, "between transmissions"); restarts++; fault_fired("restart"); if(draw(S_PLAN, 2)) sim_sleep(draw(S_PLAN, 90*SEC), false); n = full_boot(w); if(!node_ready(n)) violation("boot", "daemon did not start again: %s", n->logs.empty() ? "" : n->logs.back().c_str()); continue; }
    // one transmission: an original, or a retransmission of an earlier product
    bool rt = !roots.empty() && draw(S_PLAN, 3); T t; Prod p; bool whole = !draw(S_FAULT, 3); t.seq = seq++; t.orig = 0; t.root = t.seq;
    if(!rt){ p = rand_prod(t.seq, draw(S_PLAN, nch), 4000); } else { t.root = roots[draw(S_PLAN, roots.size())]; p = base[t.root]; t.orig = t.root; auto &g = group[t.root]; if(draw(S_PLAN, 4) == 3){ u32 o = g[draw(S_PLAN, g.size())]; auto it = known.find(o); if(it != known.end() && it->second.ok) t.orig = o; } p.frames.clear(); p.seq = t.seq; p.orig = t.orig; if(draw(S_PLAN, 6) == 5) p.chan = draw(S_PLAN, nch); }
    u64 mode = draw(S_FAULT, 3); if(!rt && !whole && mode == 2){ // never sent: only its retransmissions are
      p.seq = t.seq; base[t.seq] = p; roots.push_back(t.seq); group[t.seq].push_back(t.seq); fault_fired("original_not_sent"); continue; }
    prod_build(p, sbn[p.chan]); w->rx.add(p); if(p.frames.size() < 2) whole = true; t.whole = whole; t.tracked = tracked(p); base[t.root] = p; if(!rt) roots.push_back(t.seq); group[t.root].push_back(t.seq);
    int skip = -1; size_t cut = p.frames.size(); if(!whole){ if(mode == 1){ cut = 1 + draw(S_FAULT, p.frames.size() - 1); fault_fired("transmission_cut_off"); } else { skip = 1 + draw(S_FAULT, p.frames.size() - 1); fault_fired("frame_lost"); if(skip == (int)p.frames.size() - 1) cut = skip; } }
    // a transmission that was cut off is recorded as missing when the next one starts on its channel
    for(size_t b=0;b<cut;b++){ if((int)b == skip) continue; injected++; inject_frame(p.chan, p.frames[b]); sim_sleep(20*US, false); }
    u64 t0 = g_now; wait_for([&]{ return !n->alive || w->rx.rx >= injected; }, 120*SEC, 10*MS); sim_sleep(300*MS + draw(S_PLAN, 2)*3*SEC, false); expect_alive(n, "while receiving"); if(whole) wait_for([&]{ scan(); return cnt[t.seq] > 0; }, 5*SEC, 100*MS); scan();
    if(auto u = unfinished.find(p.chan); u != unfinished.end() && u->second){ auto it = known.find(u->second); if(it == known.end() || !it->second.ok) known[u->second] = {false, t0}; } unfinished[p.chan] = 0; if(!whole){ if(cut < p.frames.size()) unfinished[p.chan] = t.seq; else known[t.seq] = {false, t0}; }
    t.want = whole ? 1 : 0; if(whole && t.orig){ whole_rtx++; auto it = known.find(t.orig); if(t.tracked && it != known.end() && it->second.ok) t.want = g_now - it->second.t < keep ? 0 : -1; }
    int c = cnt[t.seq]; if(t.want == 1 && c != 1) violation(t.orig ? "not-recovered" : "product-lost", "transmission %u of product %u was received whole, no other one was before, and it was announced %d times", t.seq, t.root, c);
    if(t.want == 0 && whole && c) violation("announce-again", "product %u, received %.1f s before as %u, was announced again when retransmitted as %u", t.root, (g_now - known[t.orig].t)/1e9, t.orig, t.seq); if(t.want == 0 && !whole && c) violation("announce-incomplete", "transmission %u was not received whole and was announced", t.seq);
    if(whole){ if(c){ known[t.seq] = {true, g_now}; if(t.orig){ rec++; known[t.orig] = {true, std::min(t0, g_now)}; } } else { ign++; known[t.seq] = {true, t0}; } } tx.push_back(t);
  }
  sim_sleep(3*SEC, false); scan(); for(auto &t : w->f1->notes){ auto it = w->rx.byseq.find(t.seq); if(it == w->rx.byseq.end()) violation("announce-unknown", "announced: %s", t.raw.c_str()); const Prod& p = w->rx.prods[it->second]; if(t.fname != p.fname || t.fpath != w->c.root + "/spool/" + p.fname.substr(0,4) + "/" + p.fbasename || !t.read_ok || t.content != w->rx.content(p)) violation("content", "product %u is announced as %s, or with %zu bytes that differ from the %zu sent", t.seq, t.raw.c_str(), t.content.size(), w->rx.content(p).size()); if(cnt[t.seq] > 1) violation("announce-duplicate", "transmission %u was announced %d times", t.seq, cnt[t.seq]); }
  auto rl = lines(slurp(w->c.root + "/stats/rtx")); if(rl.size() != whole_rtx) violation("rtx-log", "%zu retransmissions were received whole and %zu are in the retransmission log", whole_rtx, rl.size());
  probe("retransmissions_ignored", ign); probe("retransmissions_recovered", rec); sample(strf("%s record, %d min, %zu transmissions, %zu restarts, %zu ignored, %zu recovered", file ? "file" : "memory", mins, tx.size(), restarts, ign, rec)); clean_stop(n, 60*SEC, "at the end");
}
