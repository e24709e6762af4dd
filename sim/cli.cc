#include "cli.h"
std::vector<Client*> g_cli; EmwinState g_emw;
static u32 sum(const std::string& s, size_t o, size_t n){ u32 c = 0; for(size_t i=0;i<n;i++) c += (u8)s[o+i]; return c; }
std::string emwin_text(u32 seq){ size_t n = (seq*2654435761u)%5000; if(seq % 7 == 0) n = 1024*(1 + seq%3); if(n == 0) n = 1; return rand_bytes(n, seq ^ 0xe1); }
std::string emwin_name(u32 seq){ u32 k = seq % 5; return k == 4 ? strf("%u.t", seq % 10000000) : k == 3 ? strf("%u.tx", seq % 10000000) : strf("ab%06u.txt", seq % 1000000); }
bool emwin_pass(u32 seq){ return (seq*2654435761u >> 7) % 4 != 0; }
bool Parser::step(){
  if(!err.empty()) return false;
  if(kind == "EMWIN"){
    if(buf.size() < 1116) return false; std::string d = buf.substr(0, 1116); buf.erase(0, 1116); for(auto &c : d) c ^= 0xff;
    for(int i=0;i<6;i++) if(d[i] || d[1110+i]){ err = "weather-wire packet not framed by NULs: " + hexs(d, 20); return false; }
    char pf[16], date[32]; int pn, pt, cs; std::string h = d.substr(6, 80); memset(pf, 0, sizeof pf); memset(date, 0, sizeof date);
    if(h.compare(0,3,"/PF") || h.compare(15,4,"/PN ") || h.compare(24,4,"/PT ") || h.compare(33,4,"/CS ") || h.compare(43,3,"/FD") || h.compare(68,12,"          \r\n")){ err = "weather-wire header malformed: " + hexs(h, 80); return false; }
    memcpy(pf, h.data()+3, 12); pn = atoi(h.substr(19,5).c_str()); pt = atoi(h.substr(28,5).c_str()); cs = atoi(h.substr(37,6).c_str()); 
    std::string name = pf; while(!name.empty() && name.back() == ' ') name.pop_back();
    if(!mid){ curg = Got(); curg.name = name; nblk = pt; blk = 0; if(pt < 1){ err = strf("weather-wire packet says %d parts", pt); return false; } }
    if(name != curg.name || pt != nblk || pn != blk + 1){ err = strf("weather-wire packet %d of %d of %s where %d of %d of %s was due", pn, pt, name.c_str(), blk+1, nblk, curg.name.c_str()); return false; }
    // only the last part may be padded; the checksum covers the data, and NUL padding adds nothing
    std::string body = d.substr(86, 1024); if((int)sum(body, 0, 1024) != cs){ err = strf("weather-wire checksum %d, data sums to %u (part %d of %d of %s)", cs, sum(body,0,1024), pn, pt, name.c_str()); return false; }
    curg.data += body; blk = pn; mid = blk < nblk; if(!mid){ curg.t = g_now; got.push_back(curg); } return true; }
  if(buf.size() < 12) return false; u32 id = rd32(buf, 0), n = rd32(buf, 4), ck = rd32(buf, 8);
  if(id != (kind == "NBS1" ? 1u : 2u) || n > 70000 || n < 8){ err = strf("bad envelope id %u size %u: %s", id, n, hexs(buf, 60).c_str()); return false; }
  if(buf.size() < 12 + n) return false; std::string d = buf.substr(12, n); buf.erase(0, 12 + n);
  if(sum(d, 0, n) != ck){ err = strf("checksum %u, data sums to %u", ck, sum(d,0,n)); return false; }
  Got g; g.seq = rd32(d, 0); g.type = (u8)d[4]; g.cat = (u8)d[5]; g.code = (u8)d[6]; g.chan = (u8)d[7]; g.t = g_now;
  if(kind == "NBS2"){
    std::string f = d.substr(8, 19), p = d.substr(27); if(f.find('\0') == std::string::npos || p.find('\0') == std::string::npos){ err = "names not terminated"; return false; }
    g.name = f.c_str(); g.path = p.c_str(); got.push_back(g); return true; }
  if(n < 54){ err = strf("data packet of %u bytes is shorter than its header", n); return false; }
  std::string f = d.substr(8, 37); if(f.find('\0') == std::string::npos){ err = "name not terminated"; return false; } g.name = f.c_str();
  int zip = (u8)d[45], nb = rd16(d, 46), b = rd16(d, 48); u32 bs = rd32(d, 50); 
  if(zip != 0 || bs != n - 54 || bs == 0 || bs > 65536 || nb < 1){ err = strf("data packet header: compressed %d blocks %d block %d size %u in a packet of %u", zip, nb, b, bs, n); return false; }
  if(!mid){ curg = g; nblk = nb; blk = 0; }
  if(g.seq != curg.seq || g.name != curg.name || g.type != curg.type || g.cat != curg.cat || g.code != curg.code || g.chan != curg.chan || nb != nblk || b != blk + 1){ err = strf("block %d of %d of %u %s where block %d of %d of %u %s was due", b, nb, g.seq, g.name.c_str(), blk+1, nblk, curg.seq, curg.name.c_str()); return false; }
  if(b < nb && bs != 65536){ err = strf("block %d of %d has only %u bytes", b, nb, bs); return false; }
  curg.data += d.substr(54); blk = b; mid = blk < nblk; if(!mid){ curg.t = g_now; got.push_back(curg); } return true;
}
void Parser::feed(const std::string& s){ bytes += s.size(); if(nocheck) return; buf += s; while(step()); }
Client *client_new(const std::string& kind, u32 ip, const std::string& name){ Client *c = new Client; c->kind = kind; c->ps.kind = kind; c->p = new_proc(name, ip); c->ident = kind; g_cli.push_back(c); return c; }
void client_run(Client *c, u32 server){
  for(u64 d = g_now + 30*SEC;;){ c->fd = actor_connect(c->p, server, 2210, 20*SEC); if(c->fd >= 0 || g_now >= d || c->stop) break; sim_sleep(500*MS, false); } if(c->fd < 0){ c->done = true; return; } c->connected = true; c->conn_at = g_now; tr("client %s connected", c->p->name.c_str());
  if(c->idwait) sim_sleep(draw(S_PLAN, c->idwait), false);
  if(!c->ident.empty()) actor_writeall(c->fd, c->ident, g_now + 5*SEC); c->ident_at = g_now;
  while(!c->stop){
    if(c->hold_until > g_now){ sim_sleep(std::min<u64>(c->hold_until - g_now, 200*MS), false); continue; }
    std::string s; struct pollfd pf = {c->fd, POLLIN, 0}; if(sim_poll(&pf, 1, 200) == 0) continue;
    char b[16384]; ssize_t n = sim_read(c->fd, b, std::min(c->chunk, sizeof b)); if(n <= 0){ c->eof = true; tr("client %s: connection ended (%zd)", c->p->name.c_str(), n); break; }
    c->ps.feed(std::string(b, n)); if(c->rdelay) sim_sleep(draw(S_NET, c->rdelay), false);
  }
  sim_close(c->fd); c->fd = -1; c->done = true;
}
Fiber *client_start(Client *c, u32 server){ c->done = c->eof = c->connected = c->stop = false; return actor(c->p, "client", [c, server]{ client_run(c, server); }); }
static std::function<void*(Proc*, const std::string&, int)> prev_main;
static void *emw_main(Proc *c, const std::string& root, int fd){
  g_emw.opens++; std::string fifo = root + "/run/emwinfilter.fifo"; std::string buf; char b[4096]; int wfd = -1; mkdir((root + "/run/emwin").c_str(), 0755);
  for(;;){
    // a real filter takes a while to start and waits for its fifo
    if(wfd < 0){ sim_sleep(300*MS, false); for(int k=0;k<100 && (wfd = sim_open(fifo.c_str(), O_WRONLY)) < 0 && errno == ENOENT;k++) sim_sleep(50*MS, false); if(wfd < 0) return (void*)1; }
    ssize_t n = sim_read(fd, b, sizeof b); if(n <= 0) break; buf.append(b, n); size_t k;
    while((k = buf.find('\n')) != std::string::npos){
      std::string l = buf.substr(0, k); buf.erase(0, k+1); if(l.empty()) continue; Note nt; g_emw.asked++;
      if(!parse_note(l, nt)) violation("emwin-request", "the weather-wire filter was asked: %s", hexs(l, 200).c_str());
      if(g_emw.delay_max) sim_sleep(draw(S_FAULT, g_emw.delay_max), false);
      if(g_emw.die){ g_emw.die = false; fault_fired("emwin_filter_died"); return (void*)1; }
      if(g_emw.hang){ g_emw.hang = false; fault_fired("emwin_filter_hung"); while(sim_read(fd, b, sizeof b) > 0); return nullptr; }
      std::string r; if(!emwin_pass(nt.seq)) r = std::string(1, 1); else { std::string path = root + strf("/run/emwin/%u", nt.seq), nm = emwin_name(nt.seq); spew(path, emwin_text(nt.seq)); r = std::string(1, 0); be16(r, path.size()); be16(r, nm.size()); r += path + nm; }
      if(g_emw.bad_reply){ int q = g_emw.bad_reply; g_emw.bad_reply = 0; fault_fired("emwin_bad_reply"); if(q == 1) r = std::string(1, 0) + std::string("\xff\xff\xff\xff", 4) + std::string(300, 'x'); else if(q == 2) r.resize(r.size()/2); else r = std::string(1, 0) + std::string("\0\0\0\x40", 4) + std::string(64, 'y'); }
      size_t cut = r.size() > 1 ? draw(S_NET, r.size()) : 0; if(cut){ if(sim_write(wfd, r.data(), cut) < 0) return nullptr; sim_sleep(draw(S_NET, 5*MS), false); } if(sim_write(wfd, r.data()+cut, r.size()-cut) < 0) return nullptr;
    }
  }
  return nullptr;
}
void emwin_filter_install(const std::string& root){ auto prev = g_popen_main; g_popen_main = [prev, root](Proc *c, const std::string& cmd, int fd) -> void* { if(cmd.compare(0, 4, "emw ") == 0) return emw_main(c, root, fd); return prev ? prev(c, cmd, fd) : nullptr; }; }
void server_conf(Conf& c, int types){ c["servertype"] = strf("%d", types); c["serverport"] = "2210"; c["servername"] = "*"; if(types & 4){ c["emwinfilter"] = "emw"; emwin_filter_install(c.root); } }
void check_stream(const std::string& who, const std::string& kind, const std::vector<Got>& got, const std::vector<Note>& ref0, const RxModel& rx, u64 from, bool to_end){
  std::vector<Note> ref; for(auto &n : ref0) if(kind != "EMWIN" || emwin_pass(n.seq)) ref.push_back(n);
  size_t first = ref.size(); for(size_t i=0;i<ref.size();i++) if(ref[i].t >= from){ first = i; break; }
  auto key = [&](const Note& n){ return kind == "EMWIN" ? emwin_name(n.seq) : strf("%u", n.seq); };
  auto gkey = [&](const Got& g){ std::string s = kind == "EMWIN" ? g.name : strf("%u", g.seq); for(auto &c : s) c = tolower(c); return s; };
  if(got.empty()){ if(to_end && first < ref.size()) violation("client-missed", "%s (%s) received nothing; %zu products were announced after it was connected", who.c_str(), kind.c_str(), ref.size()-first); return; }
  size_t i0 = 0; while(i0 < ref.size() && key(ref[i0]) != gkey(got[0])) i0++;
  if(i0 == ref.size()) violation("client-unknown", "%s (%s) received %s which was never announced", who.c_str(), kind.c_str(), gkey(got[0]).c_str());
  if(i0 > first) violation("client-missed", "%s (%s) was connected in time for %s but the first it received is %s", who.c_str(), kind.c_str(), key(ref[first]).c_str(), gkey(got[0]).c_str());
  for(size_t k=0;k<got.size();k++){
    const Got& g = got[k]; if(i0 + k >= ref.size() || key(ref[i0+k]) != gkey(g)){ bool before = false; for(size_t j=0;j<i0+k && j<ref.size();j++) if(key(ref[j]) == gkey(g)) before = true; violation(before ? "client-repeat" : "client-gap", "%s (%s) received %s where %s was due", who.c_str(), kind.c_str(), gkey(g).c_str(), i0+k < ref.size() ? key(ref[i0+k]).c_str() : "nothing"); }
    const Note& n = ref[i0+k];
    if(kind == "EMWIN"){ std::string w = emwin_text(n.seq); size_t parts = (w.size() + 1023)/1024; w.resize(parts*1024, 0); std::string un = emwin_name(n.seq); for(auto &c : un) c = toupper(c); if(g.name != un) violation("client-name", "%s received weather-wire product named %s instead of %s", who.c_str(), g.name.c_str(), un.c_str()); if(g.data != w) violation("client-content", "%s: weather-wire product %u differs from the file", who.c_str(), n.seq); continue; }
    if(g.type != (n.type & 255) || g.cat != (n.cat & 255) || g.code != (n.code & 255) || g.chan != n.chan) violation("client-codes", "%s: product %u came with codes %d/%d/%d/%d, announced with %d/%d/%d/%d", who.c_str(), n.seq, g.type, g.cat, g.code, g.chan, n.type, n.cat, n.code, n.chan);
    if(kind == "NBS2"){ if(g.name != n.fname || g.path != n.fpath) violation("client-name", "%s: notification %s %s, announced %s %s", who.c_str(), g.name.c_str(), g.path.c_str(), n.fname.c_str(), n.fpath.c_str()); continue; }
    std::string base = n.fpath.substr(n.fpath.rfind('/')+1); if(g.name != base) violation("client-name", "%s: file %s, announced %s", who.c_str(), g.name.c_str(), base.c_str());
    auto it = rx.byseq.find(n.seq); if(it != rx.byseq.end()){ std::string w = rx.content(rx.prods[it->second]); if(g.data != w) violation("client-content", "%s: product %u: received %zu bytes that differ from the %zu stored", who.c_str(), n.seq, g.data.size(), w.size()); }
  }
  if(to_end && i0 + got.size() < ref.size()) violation("client-missed", "%s (%s) received nothing after %s; %zu more were announced", who.c_str(), kind.c_str(), gkey(got.back()).c_str(), ref.size() - i0 - got.size());
}
