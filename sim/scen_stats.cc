#include "full.h"
#include "feed.h"
// C24: what the status file says, summed over its periods, against what the daemon's sockets handed to it.
struct StatRow { u64 v[17]; };
static std::vector<StatRow> read_status(const std::string& path){
  std::vector<StatRow> r; std::string s = slurp(path); if(!s.empty() && s.back() != '\n') return r;   // being written
  u64 last = 0; for(auto &l : lines(s)){ auto f = split(l, ' '); StatRow w; if(f.size() != 17) violation("status-format", "a line of the status file has %zu columns: %s", f.size(), hexs(l, 200).c_str());
    for(int i=0;i<17;i++){ char *e; w.v[i] = strtoull(f[i].c_str(), &e, 10); if(f[i].empty() || *e) violation("status-format", "a figure in the status file is not a number: %s", hexs(l, 200).c_str()); if(i && w.v[i] > 2000000000ull) violation("status-range", "a figure in the status file is absurd: %s", l.c_str()); }
    if(w.v[0] < last) violation("status-time", "the times in the status file go back: %s", l.c_str()); last = w.v[0]; r.push_back(w); }
  return r; }
static const char *scol[] = {"time","frames received","frames processed","frame number jumps","bad frames","bytes received","products transmitted","products completed","products missed","retransmissions seen","retransmissions completed","retransmissions processed","retransmissions ignored","retransmissions that recovered a product","products rejected","products aborted","products not saved"};
SCENARIO(stats){
  pick_sched_knobs(); bool faults = draw(S_PLAN, 4) != 0; pick_net_knobs(faults && draw(S_PLAN, 2)); install_pipe_filters();
  Conf c("n0"); c["filterlist"] = "f1"; auto f1 = g_pf["f1"] = new PipeFilter; RxModel rx; recv_conf(c, rx.o);
  u64 per = 5 + draw(S_PLAN, 4)*5; c["nbspstats_logperiod_secs"] = strf("%llu", (unsigned long long)per); c["spooldb_slots"] = "5000";
  int rtxmode = draw(S_PLAN, 3); c["rtxdb_slots"] = rtxmode == 0 ? "4096" : "0"; if(rtxmode == 0 && draw(S_PLAN, 2)) c["rtxdb_dbfname"] = "rtx.db"; c["rtxdb_default_process"] = rtxmode == 2 ? "0" : "1"; c["rtxdb_truncate_minutes"] = "600";
  bool blocked = draw(S_PLAN, 3) == 2; std::string bst = "KZZZ"; if(blocked){ mkdir("n0", 0777); mkdir("n0/spool", 0777); spew("n0/spool/kzzz", "in the way\n"); fault_fired("spool_directory_unusable"); }
  Proc *n = boot(c); rx.install(n); auto h0 = g_udp_hook; u64 rtx_seen = 0;
  g_udp_hook = [&](Proc *p, u32 grp, u16 port, const std::string& d){ h0(p, grp, port, d); if(p != n) return; auto it = rx.meta.find(d); if(it != rx.meta.end() && it->second.start && it->second.prod >= 0 && rx.prods[it->second.prod].orig) rtx_seen++; };
  if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  if(draw(S_PLAN, 3) == 2){ n->io.on = true; n->io.p_stall = 0.05; n->io.stall_max = draw(S_PLAN, 2) ? 50*MS : 1*SEC; }
  if(draw(S_PLAN, 2)) g_open_hook = [&](Proc *p, const std::string& path, int){ if(p == n && path == "n0/stats/status" && draw(S_IO, 2)){ fault_fired("slow_status_file"); sim_sleep(draw(S_IO, 2*SEC), false); } };
  std::string sf = "n0/stats/status"; u64 sum[17], rows = 0;
  auto tally = [&]{ for(auto &x : sum) x = 0; auto v = read_status(sf); for(auto &r : v) for(int i=1;i<17;i++) sum[i] += r.v[i]; rows = v.size();
    if(sum[1] > rx.rx) violation("stat-repeated", "%llu frames were received so far and the status file adds up to %llu", (unsigned long long)rx.rx, (unsigned long long)sum[1]);
    if(sum[6] > rx.insts.size()) violation("stat-repeated", "%zu product transmissions began so far and the status file adds up to %llu", rx.insts.size(), (unsigned long long)sum[6]); };
  bool closed = false; int chunks = 1 + draw(S_PLAN, 4), left = 0; u32 sbn[16], seq = 1000; for(auto &x : sbn) x = draw(S_PLAN, 2) ? 5000 : 0;
  for(int k=0;k<chunks;k++){
    int nch = 1 + draw(S_PLAN, 7); left = nch; static const u64 gaps[] = {0, 2*MS, 30*MS, 150*MS};
    if(faults && !closed && draw(S_FAULT, 5) == 4){ std::string old = sf + ".kept"; rename(sf.c_str(), old.c_str()); mkdir(sf.c_str(), 0777); closed = true; fault_fired("status_file_not_writable"); }
    for(int ch=0; ch<nch; ch++){ u64 gap = gaps[draw(S_PLAN, 4)]; int np = 2 + draw(S_PLAN, 10);
      spawn(cur->proc, strf("feed%d", ch), [&,ch,gap,np]{
        std::vector<Prod> mine;
        for(int i=0;i<np;i++){
          Prod p; bool rt = !mine.empty() && draw(S_PLAN, 4) == 3;
          if(rt){ p = mine[draw(S_PLAN, mine.size())]; p.orig = p.seq; p.seq = seq++; p.frames.clear(); if(draw(S_PLAN, 2)) sim_sleep(2*SEC + draw(S_PLAN, 3*SEC), false); } else { p = rand_prod(seq++, ch, 6000); if(blocked && draw(S_PLAN, 5) == 4) p.station = bst; }
          while(draw(S_PLAN, 5) == 4){ std::string t = sbn_frame(++sbn[ch], draw(S_PLAN, 2) ? 5 : 10, std::string(32, 's'), ch); rx.meta[t] = {-1, -1, false, false, false}; inject_frame(ch, t); probe("timing_frame"); sim_sleep(50*US, false); }   // between two products
          prod_build(p, sbn[ch]); rx.add(p); if(!rt && p.station != bst) mine.push_back(p);
          size_t cut = p.frames.size(), skip = ~0ul, ab = ~0ul; if(faults){ if(draw(S_FAULT, 8) == 7 && cut > 1){ cut = 1 + draw(S_FAULT, cut - 1); fault_fired("sender_cut_off"); } else if(draw(S_FAULT, 8) == 7){ skip = draw(S_FAULT, cut); fault_fired("frame_not_sent"); } else if(draw(S_FAULT, 10) == 9){ ab = draw(S_FAULT, cut); } }
          for(size_t b=0;b<cut;b++){
            if(b == ab){ std::string a = rx_abort_frame(p, ++sbn[ch], draw(S_FAULT, 2) ? 32 : 8); rx.abort_frame(a, p.seq); inject_frame(ch, a); fault_fired("sender_abort"); break; }
            if(faults && draw(S_FAULT, 30) == 29){ std::string g = p.frames[b]; u64 w = draw(S_FAULT, 3); if(w == 0) g[14] = (char)(g[14] ^ 0x40); else if(w == 1) g = g.substr(0, g.size() - 1); else g += 'x'; if(!rx.meta.count(g)){ inject_frame(ch, g); fault_fired("bad_frame"); } }
            if(draw(S_PLAN, 40) == 39){ std::string t = sbn_frame(++sbn[ch], draw(S_PLAN, 2) ? 5 : 10, std::string(32, 's'), ch); rx.meta[t] = {-1, -1, false, false, false}; inject_frame(ch, t); probe("timing_frame"); }
            if(b != skip) inject_frame(ch, p.frames[b]); sim_sleep(50*US + (gap ? draw(S_PLAN, gap) : 0), false); } }
        left--; return (void*)0; }); }
    while(left){ sim_sleep(500*MS, false); expect_alive(n, "while counting"); if(!closed) tally(); }
    if(closed){ sim_sleep(draw(S_PLAN, 2*per*SEC), false); rmdir(sf.c_str()); std::string old = sf + ".kept"; rename(old.c_str(), sf.c_str()); closed = false; }
    if(draw(S_PLAN, 4) == 3) signal_proc(n, SIGHUP);
    if(draw(S_PLAN, 2)) sim_sleep(draw(S_PLAN, 20*SEC), false); tally();
  }
  N.p_drop = N.p_dup = N.p_reorder = 0; n->io.on = false; g_open_hook = nullptr; drain_feed(n); u64 before = rx.rx; sim_sleep((2*per + 12)*SEC, false); expect_alive(n, "at the end"); if(rx.rx != before) sim_sleep((2*per + 12)*SEC, false);
  tally(); if(udp_queue_len(n)) violation("not-consumed", "received data were left waiting");
  u64 must = 0, missed = 0, rej = 0, open = 0, rc = 0, ri = 0, rr = 0, bad = 0; std::map<u32,int> st; std::set<u32> rejected;
  for(auto &i : rx.insts){ const Prod& p = rx.prods[i.prod]; if(i.rejected){ rej++; continue; } if(i.aborted) continue; if(!i.closed){ open++; continue; } if(!i.must){ missed++; if(!st.count(p.seq)) st[p.seq] = 1; continue; }
    must++; int os = -1; if(p.orig){ rc++; os = rtxmode == 0 ? (st.count(p.orig) ? st[p.orig] : -1) : -2; if(os == 0 || (os == -2 && rtxmode == 2)){ ri++; if(os == 0) st[p.seq] = 0; continue; } if(os == 1) rr++; }
    if(p.station == bst && blocked){ bad++; continue; } st[p.seq] = 0; if(p.orig) st[p.orig] = 0; }
  u64 want[17] = {0, rx.rx, rx.ok, rx.jumps, rx.bad, rx.bytes, rx.insts.size(), must, missed, rtx_seen, rc, rc - ri, ri, rr, rej, rx.aborts, bad};
  for(int i=1;i<17;i++) if(sum[i] != want[i]) violation(sum[i] < want[i] ? "stat-lost" : "stat-repeated", "%s: %llu, and the %llu periods in the status file add up to %llu", scol[i], (unsigned long long)want[i], (unsigned long long)rows, (unsigned long long)sum[i]);
  auto rl = lines(slurp("n0/stats/rtx")); if(rl.size() != rc) violation("rtx-log", "%llu retransmissions were received whole and %zu are in the retransmission log", (unsigned long long)rc, rl.size());
  auto ml = lines(slurp("n0/stats/missing")); if(ml.size() != missed) violation("missing-log", "%llu products were missed and %zu are in the missing log", (unsigned long long)missed, ml.size());
  if(f1->notes.size() != must - ri - bad) violation("announced", "%llu products were complete, %llu of them retransmissions to be ignored, %llu could not be saved, and %zu were announced", (unsigned long long)must, (unsigned long long)ri, (unsigned long long)bad, f1->notes.size());
  probe("products_complete", must); probe("products_missed", missed); probe("products_rejected", rej); probe("products_aborted", rx.aborts); probe("rtx_ignored", ri); probe("rtx_recovered", rr); probe("status_periods", rows); probe("frames_bad", rx.bad); probe("left_open", open);
  state_mark(((rows*1000 + missed)*1000 + ri)*4 + rtxmode); sample(strf("%llu frames, %zu transmissions in %llu periods: all accounted for", (unsigned long long)rx.rx, rx.insts.size(), (unsigned long long)rows));
  clean_stop(n, 60*SEC, "after counting");
}
