#include "full.h"
extern std::function<void(Proc*, const char*)> g_readdir_hook;
// Filters of every kind, healthy, slow, blocked and dying (C06), and reloads at any moment (C07).
static void fifo_main(FifoFilter *f){
  for(;;){
    if(f->stop) break;
    f->fd = sim_open(f->path.c_str(), O_RDONLY|O_NONBLOCK); if(f->fd < 0){ sim_sleep(100*MS, false); continue; } f->opened = true; f->starts.push_back(f->notes.size()); f->buf.clear();
    while(!f->stop){
      if(f->stall_until > g_now){ sim_sleep(std::min<u64>(f->stall_until - g_now, 300*MS), false); f->last_stall_end = g_now; continue; }
      if(f->die && f->buf.empty()) break;
      struct pollfd pf = {f->fd, POLLIN, 0}; if(sim_poll(&pf, 1, 200) == 0) continue;
      char b[4096]; ssize_t n = sim_read(f->fd, b, sizeof b); if(n <= 0){ sim_sleep(100*MS, false); continue; } f->buf.append(b, n);
      while(f->buf.size() >= 12 && f->bad.empty()){
        u32 id = rd32(f->buf, 0), sz = rd32(f->buf, 4), ck = rd32(f->buf, 8); if(id != 2 || sz < 30 || sz > 4000){ f->bad = "bad envelope: " + hexs(f->buf, 60); break; }
        if(f->buf.size() < 12 + sz) break; std::string d = f->buf.substr(12, sz); f->buf.erase(0, 12 + sz); u32 c = 0; for(unsigned char x : d) c += x; if(c != ck){ f->bad = "checksum mismatch: " + hexs(d, 60); break; }
        Note t; t.seq = rd32(d, 0); t.type = (u8)d[4]; t.cat = (u8)d[5]; t.code = (u8)d[6]; t.chan = (u8)d[7]; std::string a = d.substr(8, 19), q = d.substr(27); if(a.find('\0') == a.npos || q.find('\0') == q.npos){ f->bad = "unterminated names"; break; } t.fname = a.c_str(); t.fpath = q.c_str(); t.t = g_now; f->notes.push_back(t);
        if(f->delay_max) sim_sleep(draw(S_FAULT, f->delay_max), false); }
    }
    sim_close(f->fd); f->fd = -1; if(f->die){ f->die = false; f->deaths.push_back(g_now); fault_fired("fifo_filter_died"); sim_sleep(f->reopen_after, false); }
  }
}
FifoFilter *fifo_filter(const std::string& path, const std::string& nm){ FifoFilter *f = new FifoFilter; f->path = path; f->p = new_proc(nm, 0x0A000001); actor(f->p, "fifo", [f]{ fifo_main(f); }); return f; }
// `got` split into sessions must be increasing runs of the reference sequence
struct Seg { size_t a, b; };      // indices in the reference, half open
static std::vector<Seg> match(const std::string& who, const std::vector<Note>& got, const std::vector<size_t>& starts, const std::vector<Note>& ref, bool runs, bool joined = false){
  std::map<u32,std::vector<size_t>> pos; for(size_t i=0;i<ref.size();i++) pos[ref[i].seq].push_back(i);
  std::vector<Seg> v; size_t next = 0; std::vector<size_t> cut; for(auto x : starts) if(x < got.size()) cut.push_back(x); if(!runs){ cut.clear(); for(size_t k=0;k<got.size();k++) cut.push_back(k); } if(cut.empty() || cut[0]) cut.insert(cut.begin(), 0); cut.erase(std::unique(cut.begin(), cut.end()), cut.end()); if(got.empty()) cut.clear();
  auto at = [&](size_t k, size_t p){ const Note& r = ref[p]; if(r.fname != got[k].fname || r.fpath != got[k].fpath || (r.type & 255) != (got[k].type & 255) || (r.cat & 255) != (got[k].cat & 255) || (r.code & 255) != (got[k].code & 255) || r.chan != got[k].chan) violation("filter-differs", "%s was told %u %d %d %d %d %s %s, the first filter %s", who.c_str(), got[k].seq, got[k].type, got[k].cat, got[k].code, got[k].chan, got[k].fname.c_str(), got[k].fpath.c_str(), r.raw.c_str()); };
  for(size_t c=0;c<cut.size();c++){ size_t s = cut[c], e = c + 1 < cut.size() ? cut[c+1] : got.size();
    for(size_t k=s;k<e;k++) if(!pos.count(got[k].seq)) violation("filter-unknown", "%s was told of %u which the first filter was not", who.c_str(), got[k].seq);
    size_t best = 0, bestp = ~0ul; for(auto p : pos[got[s].seq]){ if(p < next) continue; size_t l = 0; while(s + l < e && p + l < ref.size() && ref[p+l].seq == got[s+l].seq) l++; auto far = [&](size_t x){ return x == next ? 0 : 1 + (ref[x].t > got[s].t ? ref[x].t - got[s].t : got[s].t - ref[x].t); }; if(bestp == ~0ul || l > best || (joined && next == 0 && l == best && far(p) < far(bestp))){ best = l; bestp = p; } }   // the same number can come twice; one that joined later starts at the one nearest in time
    if(bestp == ~0ul) violation("filter-repeat", "%s was told of product %u (%s) out of turn", who.c_str(), got[s].seq, got[s].fname.c_str());
    if(best < e - s){ size_t k = s + best, p = bestp + best; bool later = false; for(auto q : pos[got[k].seq]) if(q >= p) later = true; violation(later ? "filter-gap" : "filter-repeat", "%s was told of product %u where %s was due although it kept reading", who.c_str(), got[k].seq, p < ref.size() ? strf("%u", ref[p].seq).c_str() : "nothing"); }
    for(size_t l=0;l<best;l++) at(s + l, bestp + l); next = bestp + best; if(!v.empty() && v.back().b == bestp) v.back().b = next; else v.push_back({bestp, next}); }
  return v; }
static size_t ref_after(const std::vector<Note>& ref, u64 t){ size_t i = 0; while(i < ref.size() && ref[i].t <= t) i++; return i; }
static void filt(bool reload){
  pick_sched_knobs(); bool loss = draw(S_PLAN, 4) == 3; pick_net_knobs(loss); install_pipe_filters(); static const size_t caps[] = {65536, 8192, 12288}; g_fifo_cap = caps[draw(S_PLAN, 3)]; g_popen_cap = caps[draw(S_PLAN, 3)];
  Conf c("n0"); RxModel rx; auto f1 = g_pf["f1"] = new PipeFilter; int np = draw(S_PLAN, 4), nf = draw(S_PLAN, 3); static const char *sep[] = {":"," ","\t"}; std::string fl; std::vector<std::string> names; size_t at = draw(S_PLAN, np + 1);
  for(int i=0;i<=np;i++){ std::string nm = (size_t)i == at ? "f1" : strf("p%d", i); if(i) fl += sep[draw(S_PLAN, 3)]; fl += nm; if(nm != "f1"){ g_pf[nm] = new PipeFilter; g_pf[nm]->slurp_content = false; names.push_back(nm); } } c["filterlist"] = fl;
  static const char *ft[] = {"500","200","1500"}; int fti = draw(S_PLAN, 3); c["fifo_write_timeout_ms"] = ft[fti]; u64 fto = atoi(ft[fti])*MS; recv_conf(c, rx.o); rx.o.accept_set = false; c.o.erase("acceptpatt"); c.write();
  bool jam = draw(S_PLAN, 3) == 2; if(jam){ nf = 2 + draw(S_PLAN, 2); g_fifo_cap = 4096; }
  std::vector<FifoFilter*> ff; for(int i=0;i<nf;i++){ std::string path = strf("n0/dev/w%d", i); mkfifo(path.c_str(), 0600); ff.push_back(fifo_filter(path, strf("w%d", i))); }
  std::vector<std::string> dirp; if(draw(S_PLAN, 2)){ std::string path = "n0/dev/d0"; spew(path, "#!\n"); chmod(path.c_str(), 0755); g_pf[path] = new PipeFilter; g_pf[path]->slurp_content = false; dirp.push_back(path); }
  if(draw(S_PLAN, 4) == 3){ if(symlink("nowhere", "n0/dev/c0")) violation("harness", "symlink"); fault_fired("dangling_filter_link"); }
  spew("n0/dev/README", "not a filter\n"); chmod("n0/dev/README", 0644);
  if(!wait_for([&]{ for(auto f : ff) if(!f->opened) return false; return true; }, 5*SEC)) violation("harness", "fifo readers");
  Proc *n = boot(c); rx.install(n); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  wait_log(n, "Loaded filters", 5*SEC); sim_sleep(200*MS, false);
  if(draw(S_PLAN, 3) == 2){ n->io.on = true; n->io.p_tcp_short = 0.3; n->io.p_stall = 0.02; n->io.stall_max = 50*MS; }
  // behaviours: 0 prompt, 1 slow, 2 blocked for a while, 3 dies
  auto beh = [&]{ return (int)draw(S_PLAN, 4); }; std::vector<std::string> pn = names; pn.insert(pn.end(), dirp.begin(), dirp.end()); std::map<std::string,int> pb; std::vector<int> fb;
  for(auto &x : pn){ int b = pb[x] = beh(); PipeFilter *f = g_pf[x]; if(b == 1){ f->delay_max = draw(S_PLAN, 2) ? 20*MS : 400*MS; } }
  for(auto f : ff){ int b = beh(); fb.push_back(b); if(b == 1) f->delay_max = std::min<u64>(100*MS, fto/3); }
  int rounds = 1 + draw(S_PLAN, 4); if(jam){ size_t j = draw(S_PLAN, ff.size()); fb[j] = 8; ff[j]->delay_max = 0; ff[j]->stall_until = g_now + 10*SEC + draw(S_PLAN, 60*SEC); rounds = 3 + draw(S_PLAN, 3); fault_fired("fifo_filter_jammed"); }   // one that does not read until long after its pipe is full
  u64 hups = 0; std::vector<u64> huptimes; std::string added; FifoFilter *addedf = nullptr; u64 added_t = NEVER, removed_t = NEVER; std::string removed;
  std::vector<Fiber*> dummy; u32 opens0 = f1->opens; bool feeding = true; static u32 sbn0 = 0; (void)sbn0;
  actor(new_proc("chaos", 0x0A000050), "chaos", [&]{
    while(feeding){
      sim_sleep(50*MS + draw(S_FAULT, 3*SEC), false); if(!feeding) break;
      if(draw(S_FAULT, 3)){ for(auto &x : pn) if(pb[x] == 2 && draw(S_FAULT, 3) == 1){ g_pf[x]->hang_until = g_now + draw(S_FAULT, 8*SEC); fault_fired("filter_blocked"); } else if(pb[x] == 3 && draw(S_FAULT, 2)){ if(draw(S_FAULT, 2)) g_pf[x]->die = true; else g_pf[x]->exit_after = draw(S_FAULT, 4); }
        for(size_t i=0;i<ff.size();i++) if(fb[i] == 2 && draw(S_FAULT, 3) == 1){ ff[i]->stall_until = g_now + draw(S_FAULT, 8*SEC); fault_fired("fifo_filter_blocked"); } else if(fb[i] == 3 && draw(S_FAULT, 2)){ ff[i]->reopen_after = draw(S_FAULT, 4*SEC); ff[i]->die = true; } }
      if(reload && draw(S_FAULT, 2)){
        u64 k = draw(S_FAULT, 4);
        if(k == 1 && added.empty()){ added = "n0/dev/d1"; g_pf[added] = new PipeFilter; g_pf[added]->slurp_content = false; spew(added, "#!\n"); chmod(added.c_str(), 0755); added_t = g_now; }
        else if(k == 2 && removed.empty() && !dirp.empty()){ removed = dirp[0]; unlink(removed.c_str()); }
        else if(k == 3 && !addedf){ mkfifo("n0/dev/w9", 0600); addedf = fifo_filter("n0/dev/w9", "w9"); wait_for([&]{ return addedf->opened; }, 2*SEC); }
        if(removed.empty() && !dirp.empty() && draw(S_FAULT, 8) == 7){   // removed while the directory is being searched
          std::string base = dirp[0].substr(dirp[0].rfind('/') + 1); bool *gone = new bool(false); g_readdir_hook = [=](Proc *p, const char *e){ if(p == n && !*gone && base == e){ *gone = true; unlink(dirp[0].c_str()); fault_fired("filter_removed_during_reload"); } }; removed = dirp[0]; }
        signal_proc(n, SIGHUP); hups++; huptimes.push_back(g_now); fault_fired("hangup"); if(!removed.empty() && removed_t == NEVER) removed_t = g_now; }
    } });
  for(int r=0;r<rounds;r++){ run_feed(rx, 1 + draw(S_PLAN, 4) + (jam ? 3 : 0), 2 + draw(S_PLAN, 8) + (jam ? 2 : 0), jam ? 1500 : 6000, loss, loss); if(draw(S_PLAN, 2)) sim_sleep(draw(S_PLAN, 4*SEC), false); }
  feeding = false; N.p_drop = N.p_dup = N.p_reorder = 0;
  // faults stop; everybody reads again
  for(auto &x : pn){ PipeFilter *f = g_pf[x]; f->delay_max = 0; f->hang_until = 0; f->die = false; f->exit_after = -1; } for(auto f : ff){ f->delay_max = 0; f->stall_until = 0; f->die = false; } n->io.on = false;
  wait_for([&]{ return f1->notes.size() >= 1 && udp_queue_len(n) == 0; }, 60*SEC, 100*MS); size_t last = ~0ul; wait_for([&]{ bool same = last == f1->notes.size(); last = f1->notes.size(); return same; }, 300*SEC, 10*SEC); sim_sleep(4*SEC, false);
  u64 quiet = g_now; if(reload){ u64 o = f1->opens; signal_proc(n, SIGHUP); hups++; huptimes.push_back(g_now); if(!wait_for([&]{ return f1->opens > o; }, 10*SEC, 50*MS)) violation("reload-ignored", "10 s after a hangup signal to an idle daemon its filters were not started again"); sim_sleep(500*MS, false); }
  // a last round: everything must be delivered to everybody
  run_feed(rx, 2, 3, 2000, false, false); drain_feed(n, 6*SEC); expect_alive(n, "while feeding filters"); (void)quiet;
  if(count_log(n, "Timed out writing to")) probe("fifo_write_timeouts");
  // ---- the first filter saw all of it
  if(!f1->bad.empty()) violation("announce-format", "malformed filter line: %s", hexs(f1->bad[0], 200).c_str());
  rx.check(f1->notes, "n0"); const auto& ref = f1->notes; size_t NR = ref.size(); 
  if(NR == 0){ probe("nothing_accepted"); clean_stop(n, 60*SEC, "with filters running"); for(auto f : ff) f->stop = true; return; }
  auto sess = [&](const std::string& nm, PipeFilter *f){ if(!f->bad.empty()) violation("filter-format", "%s got a malformed line: %s", nm.c_str(), hexs(f->bad[0], 200).c_str()); for(auto &q : f->partials) if(!q.empty()) violation("filter-cut", "%s was left with an unfinished line: %s", nm.c_str(), hexs(q, 100).c_str()); };
  sess("f1", f1); std::vector<size_t> none; match("f1", ref, f1->starts, ref, true);
  if(reload){ if(f1->opens - opens0 > hups) violation("reload-extra", "%zu hangup signals but the filters were started %zu more times", (size_t)hups, (size_t)(f1->opens - opens0)); if(f1->ends < f1->opens - opens0) violation("reload-abrupt", "the filter was started again %zu times but asked to finish only %zu times", (size_t)(f1->opens - opens0), f1->ends); probe("reloads", f1->opens - opens0); }
  else if(f1->opens != opens0) violation("filter-restarted", "the first filter was restarted without reason");
  for(auto &x : names){ PipeFilter *f = g_pf[x]; sess(x, f);
    if(f->deaths.empty()){ auto v = match(x, f->notes, f->starts, ref, true); if(v.empty() || v[0].a != 0 || v.back().b != NR || f->notes.size() != NR) violation("filter-gap", "filter %s was told of %zu products, the first filter of %zu", x.c_str(), f->notes.size(), NR); continue; }
    auto v = match(x, f->notes, f->starts, ref, true); probe("filter_deaths_checked", f->deaths.size());
    if(v.empty() || v.back().b != NR) violation("filter-not-restarted", "filter %s died %zu times and was not told of the last products", x.c_str(), f->deaths.size());
    // after each death at most the notification in flight and the one that discovered the death are lost
    for(auto t : f->deaths){ size_t i = ref_after(ref, t + 2*SEC) + 2; if(i >= NR) continue; bool died_again = false; for(auto u : f->deaths) if(u > t && u <= ref[i].t + 2*SEC) died_again = true; if(died_again) continue; bool have = false; for(auto &sg : v) if(sg.a <= i && i < sg.b) have = true; if(!have) violation("filter-not-restarted", "filter %s died at %.3f s and still was not told of product %u processed at %.3f s", x.c_str(), t/1e9, ref[i].seq, ref[i].t/1e9); } }
  for(auto &x : dirp){ PipeFilter *f = g_pf[x]; sess(x, f); bool rm = removed == x; auto v = match(x, f->notes, f->starts, ref, true); if(!f->deaths.empty()){ if(!rm && (v.empty() || v.back().b != NR)) violation("filter-not-restarted", "filter %s was not told of the last products", x.c_str()); continue; }
    if(!rm){ if(f->notes.size() != NR) violation("filter-gap", "filter %s was told of %zu products, the first filter of %zu", x.c_str(), f->notes.size(), NR); continue; }
    size_t must = ref_after(ref, removed_t); for(size_t k=1;k<v.size();k++) if(v[k].a != v[k-1].b) violation("filter-gap", "filter %s missed %zu notifications before it was removed", x.c_str(), v[k].a - v[k-1].b);
    if(must && (v.empty() || v[0].a != 0 || v.back().b + 4 < must)) violation("filter-gap", "filter %s was told of too few products before it was removed", x.c_str()); if(!v.empty() && v.back().b == NR) violation("removed-runs", "filter %s still runs after it was removed and the filters reloaded", x.c_str()); probe("filters_removed"); }
  if(!added.empty()){ PipeFilter *f = g_pf[added]; sess(added, f); auto v = match(added, f->notes, f->starts, ref, true, true); if(v.empty() || v.back().b != NR) violation("added-idle", "filter %s was added and the filters reloaded but it was not told of the last products", added.c_str()); for(size_t k=1;k<v.size();k++) if(v[k].a != v[k-1].b) violation("filter-gap", "filter %s missed %zu notifications after it was added", added.c_str(), v[k].a - v[k-1].b); (void)added_t; probe("filters_added"); }
  if(addedf) ff.push_back(addedf), fb.push_back(9);
  for(size_t i=0;i<ff.size();i++){ FifoFilter *f = ff[i]; const char *w = f->p->name.c_str(); if(!f->bad.empty()) violation("fifo-format", "%s: %s", w, f->bad.c_str()); if(!f->buf.empty()) violation("filter-cut", "%s was left with %zu bytes of a notification", w, f->buf.size());
    bool dead = !f->deaths.empty(), stalled = f->last_stall_end != 0; auto v = match(w, f->notes, dead || stalled ? none : std::vector<size_t>{0}, ref, !dead && !stalled);
    // a reader that died is only tried again at the next reload or product; if a reload found nobody listening the fifo is dropped until the next one
    if(v.empty() || v.back().b != NR){ if(!(dead && reload)) violation("fifo-gap", "%s was not told of the last products (%zu of %zu)", w, f->notes.size(), NR); }
    if(fb[i] != 9 && !dead && !stalled && f->notes.size() != NR) violation("fifo-gap", "%s kept reading but was told of %zu products, the first filter of %zu", w, f->notes.size(), NR); probe("fifo_notes", f->notes.size()); }
  sample(strf("%zu pipe filters, %zu fifo filters, %zu products, %zu reloads", pn.size() + 1, ff.size(), NR, (size_t)hups));
  clean_stop(n, 60*SEC, "with filters running"); for(auto f : ff) f->stop = true;
}
SCENARIO(filt){ filt(false); }
SCENARIO(filtreload){ filt(true); }
