#include "full.h"
// The spool directory keeps the newest products, up to its limit, over clean restarts (C05).
SCENARIO(spool){
  pick_sched_knobs(); net_knobs_lossless(); static const int big[] = {4, 2, 3, 8, 16, 40}; size_t nmax = big[draw(S_PLAN, 6)]; static const int md[] = {1, 2, 3}; Full *w = full_new(FULL_SBN | FULL_NOFIFO); w->modes = md[draw(S_PLAN, 3)]; w->types = 0; w->c.o.erase("servertype"); w->c["feedmode"] = strf("%d", w->modes); w->c["spooldb_slots"] = strf("%zu", nmax);
  if(w->modes & 2){ sim_add_host("m9", 0x0A00000A); w->c["masterservers"] = "1,m9,2210"; w->m = smaster_new("n9", 0x0A00000A); } static const u64 fd[] = {0, 3*MS, 200*MS}; w->f1->delay_max = fd[draw(S_PLAN, 3)]; w->f1->slurp_content = true;
  // every moment: creation and removal of files below the spool
  struct St { std::vector<std::string> l; size_t max = 0, removed = 0, maxn = 0; std::map<std::string,u32> seq; }; static St *st; St S; st = &S; S.maxn = nmax; std::string sd = w->c.root + "/spool/";
  g_fs_hook = [sd](Proc*, const std::string& op, const std::string& path){ St& s = *st; if(path.compare(0, sd.size(), sd)) return; auto it = std::find(s.l.begin(), s.l.end(), path);
    if(op == "unlink"){ if(it == s.l.end()) return; size_t pos = it - s.l.begin(); if(pos) violation("removed-newer", "%s is removed, though %zu products in the spool are older (%s)", path.c_str(), pos, s.l[0].c_str()); if(s.l.size() <= s.maxn) violation("removed-early", "%s is removed with only %zu products in the spool and a limit of %zu", path.c_str(), s.l.size(), s.maxn); s.l.erase(it); s.removed++; }
    else if(it == s.l.end()){ s.l.push_back(path); s.max = std::max(s.max, s.l.size()); if(s.l.size() > s.maxn + 1) violation("over-limit", "there are %zu products in the spool and the limit is %zu, when %s is stored", s.l.size(), s.maxn, path.c_str()); } };
  Proc *n = full_boot(w); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  int rounds = 1 + draw(S_PLAN, 4); size_t restarts = 0, total = 0;
  auto settle = [&](const char *when){ full_flow(w, 120*SEC, when); u64 t0 = g_now; size_t k = 0; for(;;){ size_t c = w->f1->notes.size(); sim_sleep(2*SEC, false); if(c == w->f1->notes.size() && (!(w->modes & 2) || w->m->q.empty())) k++; else k = 0; if(k >= 2 || g_now > t0 + 300*SEC) break; } auto fs = list_files(w->c.root + "/spool"); std::set<std::string> a(fs.begin(), fs.end()), b(S.l.begin(), S.l.end()); if(a != b) violation("directory", "%zu files below the spool, %zu expected (%s)", a.size(), b.size(), fs.empty() ? "" : fs[0].c_str()); if(fs.size() > nmax) violation("over-limit", "%zu files %s and the limit is %zu", fs.size(), when, nmax);
    std::set<std::string> got; for(auto &t : w->f1->notes) got.insert(t.fpath); if(b.size() < std::min(nmax, got.size())) violation("too-few", "the spool keeps %zu of %zu products and the limit is %zu", b.size(), got.size(), nmax); };
  for(int r=0;r<rounds;r++){
    int k = draw(S_PLAN, 3) == 2 ? draw(S_PLAN, nmax*3 + 1) : draw(S_PLAN, 12); for(int i=0;i<k;i++){ full_send(w, draw(S_PLAN, 6) == 5 ? 9000 : 600); total++; if(draw(S_PLAN, 4) == 3) sim_sleep(draw(S_PLAN, 400*MS), false); }
    if(draw(S_PLAN, 3)) settle("after the products");
    if(r + 1 < rounds && draw(S_PLAN, 3)){ clean_stop(n, 60*SEC, "between rounds"); restarts++; fault_fired("restart"); n = full_boot(w); if(!node_ready(n)) violation("boot", "daemon did not start again: %s", n->logs.empty() ? "" : n->logs.back().c_str()); } }
  w->f1->delay_max = 0; settle("at the end"); expect_alive(n, "at the end"); for(auto &t : w->f1->notes){ auto it = w->rx.byseq.find(t.seq); if(it == w->rx.byseq.end()) violation("announce-unknown", "announced: %s", t.raw.c_str()); const Prod& p = w->rx.prods[it->second]; if(t.read_ok && t.content != w->rx.content(p)) violation("content", "product %u: %zu bytes that differ from the %zu sent", t.seq, t.content.size(), w->rx.content(p).size()); }
  full_files_whole(w); probe("spool_removed", S.removed); probe("spool_peak", S.max); sample(strf("limit %zu, %zu products, %zu announced, %zu removed, %zu restarts", nmax, total, w->f1->notes.size(), S.removed, restarts)); clean_stop(n, 60*SEC, "at the end"); g_fs_hook = nullptr;
}
