#include "rx.h"
#include <regex.h>
#include <dirent.h>
bool patt_match(const std::string& patt, const std::string& s){
  if(patt.empty()) return false; bool acc = false;
  for(auto p : split(patt, ',')){ if(p.empty()) continue; bool neg = p[0] == '!'; if(neg) p = p.substr(1); regex_t re; if(regcomp(&re, p.c_str(), REG_EXTENDED|REG_NOSUB)) return true; if(regexec(&re, s.c_str(), 0, 0, 0) == 0) acc = !neg; regfree(&re); }
  return acc; }
bool RxModel::accepted(const Prod& p) const { return !o.accept_set || patt_match(o.accept, p.fname); }
std::string RxModel::content(const Prod& p) const {
  bool unz = p.compressed && p.ctrlhdr && o.savez_set && !patt_match(o.savez, p.fname);
  std::string s = unz ? p.plain : p.saved; if(o.savefmt == 1 && !p.ccb.empty()) s = s.size() >= 24 ? s.substr(24) : ""; return s; }
int RxModel::add(Prod p){ int k = prods.size(); prods.push_back(p); byseq[p.seq] = k; for(size_t i=0;i<p.frames.size();i++) meta[p.frames[i]] = {k, (int)i, i == 0, i + 1 == p.frames.size(), false}; return k; }
std::string rx_abort_frame(const Prod& p, u32 sbn, int flag){ std::string r; r += (char)0x14; r += (char)flag; be16(r, 16); be16(r, 1); be16(r, 0); be16(r, 0); r += (char)0; r += (char)0; be32(r, p.seq); return sbn_frame(sbn, 3, r, p.chan); }
void RxModel::abort_frame(const std::string& f, u32 seq){ meta[f] = {byseq[seq], -1, false, false, true}; }
void RxModel::feed(int chan, const std::string& d){
  rx++; bytes += d.size(); auto it = meta.find(d); C& c = ch[chan];
  if(it == meta.end()){ bad++; return; }
  ok++; u32 sbn = rd32(d, 8); if(c.lastsbn > 0 && sbn > c.lastsbn + 1) jumps++; c.lastsbn = sbn;
  const Meta& m = it->second; 
  if(m.abort){ aborts++; if(c.active >= 0){ insts[c.active].aborted = insts[c.active].closed = true; c.active = -1; } return; }
  if(m.start){
    if(c.active >= 0){ insts[c.active].closed = true; c.active = -1; probe("unfinished_at_next_start"); }
    Inst i; i.prod = m.prod; i.chan = chan; i.t = g_now; if(!accepted(prods[m.prod])){ i.rejected = i.closed = true; insts.push_back(i); return; }
    insts.push_back(i); c.active = insts.size()-1; c.next = 0;
  }
  if(c.active < 0 || insts[c.active].prod != m.prod){ probe("frame_for_inactive_product"); return; }
  Inst& in = insts[c.active];
  if(m.block != c.next){ in.loose = true; in.closed = true; c.active = -1; probe("gap_or_dup_inside_product"); return; }
  c.next++; if(m.end){ in.closed = true; in.must = true; order[chan].push_back(m.prod); c.active = -1; }
}
void RxModel::install(Proc *n){
  g_udp_hook = [this,n](Proc *p, u32 grp, u16 port, const std::string& d){ if(p->ip != n->ip) return; for(size_t i=0;i<npchan.size();i++) if(npchan[i].second == port) feed(i, d); };
}
std::vector<MissRec> read_missing(const std::string& path, std::vector<std::string> *bad){
  std::vector<MissRec> v; for(auto &l : lines(slurp(path))){ auto f = split(l, ' '); if(f.size() < 7){ if(bad) bad->push_back(l); continue; } MissRec m; m.seq = strtoul(f[1].c_str(),0,10); m.type = atoi(f[2].c_str()); m.cat = atoi(f[3].c_str()); m.code = atoi(f[4].c_str()); m.chan = atoi(f[5].c_str()); m.fbasename = f[6]; v.push_back(m); } return v; }
std::vector<std::string> list_files(const std::string& dir){
  std::vector<std::string> v; DIR *d = opendir(dir.c_str()); if(!d) return v; while(struct dirent *e = readdir(d)){ std::string n = e->d_name; if(n == "." || n == "..") continue; std::string p = dir + "/" + n; struct stat st; if(lstat(p.c_str(), &st)) continue; if(S_ISDIR(st.st_mode)){ auto w = list_files(p); v.insert(v.end(), w.begin(), w.end()); } else v.push_back(p); } closedir(d); std::sort(v.begin(), v.end()); return v; }
void drain_feed(Proc *n, u64 settle){ wait_for([=]{ return !n->alive || udp_queue_len(n) == 0; }, 600*SEC, 100*MS); sim_sleep(settle, false); }
void RxModel::check(const std::vector<Note>& notes, const std::string& root, bool dir){
  std::map<u32, std::vector<const Note*>> by; for(auto &t : notes) by[t.seq].push_back(&t);
  std::map<int,int> C_, L_, X_, O_, R_, A_; for(auto &i : insts){ if(i.rejected) R_[i.prod]++; else if(i.aborted) A_[i.prod]++; else if(!i.closed) O_[i.prod]++; else if(i.must && !o.lenient) C_[i.prod]++; else if(i.must || i.loose) L_[i.prod]++; else X_[i.prod]++; }
  std::vector<std::string> badl; auto ms = read_missing(root + "/stats/missing", &badl); if(!badl.empty()) violation("missing-log-format", "malformed missing-product record: %s", hexs(badl[0], 120).c_str());
  std::map<u32,int> mc; for(auto &m : ms){ auto k = byseq.find(m.seq); if(k == byseq.end()) violation("missing-log-unknown", "a product that was never transmitted is recorded as missing: %u", m.seq); const Prod& p = prods[k->second]; if(m.fbasename != p.fbasename || m.chan != p.chan) violation("missing-log-wrong", "missing record of %u names %s on channel %d, transmitted %s on %d", m.seq, m.fbasename.c_str(), m.chan, p.fbasename.c_str(), p.chan); mc[m.seq]++; }
  for(auto &kv : by) if(!byseq.count(kv.first)) violation("announce-unknown", "a product that was never transmitted was announced: %s", kv.second[0]->raw.c_str());
  std::set<std::string> expect_files;
  for(size_t k=0;k<prods.size();k++){ const Prod& p = prods[k]; int a = by[p.seq].size(), m = mc[p.seq]; int c = C_[k], l = L_[k], x = X_[k];
    if(a < c) violation("product-lost", "product %u on channel %d was delivered complete %d time(s) but announced %d time(s) (recorded missing %d): %s", p.seq, p.chan, c, a, m, p.fbasename.c_str());
    if(a > c + l + (R_[k] ? 0 : 0)) violation(R_[k] ? "announce-rejected" : A_[k] ? "announce-aborted" : a > 0 && c + l == 0 ? "announce-incomplete" : "announce-duplicate", "product %u on channel %d: %d complete and %d disturbed deliveries but announced %d time(s)", p.seq, p.chan, c, l, a);
    if(a + m != c + l + x && !o.lenient) violation(a + m < c + l + x ? "product-vanished" : "product-overcounted", "product %u on channel %d: accepted %d time(s) (%d complete, %d disturbed, %d cut off) but %d announced + %d recorded missing", p.seq, p.chan, c+l+x, c, l, x, a, m);
    std::string want = content(p), path = root + "/spool/" + p.fname.substr(0,4) + "/" + p.fbasename;
    for(auto t : by[p.seq]){
      if(t->fname != p.fname) violation("announce-name", "product %u announced as %s, transmitted as %s", p.seq, t->fname.c_str(), p.fname.c_str());
      if(t->fpath != path) violation("announce-path", "product %u announced at %s, expected %s", p.seq, t->fpath.c_str(), path.c_str());
      if(t->type != p.type || t->cat != p.cat || t->code != (p.code & 0xff) || t->chan != p.chan) violation("announce-codes", "product %u announced with type/category/code/channel %d/%d/%d/%d, transmitted %d/%d/%d/%d", p.seq, t->type, t->cat, t->code, t->chan, p.type, p.cat, p.code, p.chan);
      bool once = true; { int st = 0; for(auto &i : insts) if(i.prod == (int)k) st++; once = st <= 1; }  // a product received twice is rewritten in place
      if(dir && !t->read_ok) violation("announce-nofile", "product %u announced but %s does not exist", p.seq, t->fpath.c_str());
      if(dir && once && t->content != want) violation("content", "product %u: stored %zu bytes differ from the %zu transmitted (%s)", p.seq, t->content.size(), want.size(), t->fpath.c_str());
    }
    if(a){ expect_files.insert(path); if(dir){ std::string f = slurp(path); if(f != want) violation("content-later", "product %u: stored file changed after the announcement (%zu bytes, expected %zu)", p.seq, f.size(), want.size()); } }
  }
  if(dir && !o.lenient) for(auto &f : list_files(root + "/spool")) if(!expect_files.count(f)) violation("stray-file", "%s is in the spool but no such product was announced", f.c_str());
  for(int c=0;c<16;c++){ std::vector<int> seen; std::set<int> must(order[c].begin(), order[c].end()); std::map<int,int> cnt; for(auto k : order[c]) cnt[k]++;
    for(auto &t : notes){ auto k = byseq.find(t.seq); if(k != byseq.end() && prods[k->second].chan == c && must.count(k->second)) seen.push_back(k->second); }
    bool simple = !o.lenient; for(auto &q : cnt) if(q.second > 1) simple = false; for(size_t k=0;k<prods.size();k++) if(L_[k] && must.count(k)) simple = false;
    if(simple && seen != order[c]) violation("order", "channel %d: announcements are not in the order the products were completed", c); }
  probe("products_complete", 0); for(auto &i : insts){ if(i.must) probe("products_complete"); else if(i.loose) probe("products_disturbed"); else if(i.aborted) probe("products_aborted"); else if(i.rejected) probe("products_rejected"); else if(i.closed) probe("products_cut"); }
}
