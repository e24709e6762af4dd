#include "full.h"
#include <sys/stat.h>
std::string nbs_envelope(u32 id, const std::string& d){ std::string s; be32(s, id); be32(s, d.size()); u32 c = 0; for(unsigned char x : d) c += x; be32(s, c); return s + d; }
std::string nbs1_packet(u32 seq, int type, int cat, int code, int chan, const std::string& base, int zip, int nb, int b, const std::string& data){
  std::string d; be32(d, seq); d += (char)type; d += (char)cat; d += (char)code; d += (char)chan; std::string n = base; n.resize(37, 0); d += n; d += (char)zip; be16(d, nb); be16(d, b); be32(d, data.size()); d += data; return nbs_envelope(1, d); }
std::vector<std::string> nbs1_packets(const Prod& p, const std::string& data){ std::vector<std::string> v; size_t nb = (data.size() + 65535)/65536; for(size_t i=0;i<nb;i++) v.push_back(nbs1_packet(p.seq, p.type, p.cat, p.code, p.chan, p.fbasename, 0, nb, i + 1, data.substr(i*65536, 65536))); return v; }
std::string nbs2_packet(const Prod& p, const std::string& fname, const std::string& fpath){ std::string d; be32(d, p.seq); d += (char)p.type; d += (char)p.cat; d += (char)p.code; d += (char)p.chan; std::string n = fname; n.resize(19, 0); d += n; d += fpath; d += '\0'; return nbs_envelope(2, d); }
std::string infeed_msg(const std::string& line){ std::string s; be32(s, line.size()); return s + line + "\n"; }
bool infeed_write(const std::string& fifo, const std::string& bytes){ int fd = sim_open(fifo.c_str(), O_WRONLY|O_NONBLOCK); if(fd < 0) return false; size_t o = 0; u64 d = g_now + 20*SEC; while(o < bytes.size() && g_now < d){ ssize_t k = sim_write(fd, bytes.data()+o, bytes.size()-o); if(k < 0){ if(errno != EAGAIN) break; sim_sleep(5*MS, false); continue; } o += k; } sim_close(fd); return o == bytes.size(); }
Smaster *smaster_new(const std::string& name, u32 ip, const std::string& proto){
  Smaster *m = new Smaster; m->p = new_proc(name, ip); m->proto = proto;
  actor(m->p, "listen", [m, ip]{
    int l = sim_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in in; memset(&in,0,sizeof in); in.sin_family = AF_INET; in.sin_port = htons(2210); in.sin_addr.s_addr = htonl(ip); sim_bind(l, (struct sockaddr*)&in, sizeof in); sim_listen(l, 8);
    while(!m->stop){ struct pollfd pf = {l, POLLIN, 0}; if(sim_poll(&pf, 1, 200) == 0) continue; int fd = sim_accept(l, nullptr, nullptr); if(fd < 0) continue; m->conns++;
      actor(m->p, "serve", [m, fd]{ std::string id, proto = m->proto; if(!actor_readn(fd, id, proto.size(), g_now + 10*SEC)){ sim_close(fd); return; } m->idents++; if(id != proto) m->badident = id; m->fds.push_back(fd); }); }
    sim_close(l); });
  actor(m->p, "feeder", [m]{ while(!m->stop){ if(m->q.empty() || m->fds.empty() || m->mute){ sim_sleep(10*MS, false); continue; } std::string s = m->q.front(); m->q.pop_front(); if(s.empty()){ for(auto fd : m->fds) sim_close(fd); m->fds.clear(); continue; }   // an empty string: drop the connections
    for(size_t i=0;i<m->fds.size();i++){ struct pollfd pf = {m->fds[i], POLLIN, 0}; bool dead = false; if(sim_poll(&pf, 1, 0) > 0){ char b[64]; if(sim_read(m->fds[i], b, sizeof b) <= 0) dead = true; } if(dead || !actor_writeall(m->fds[i], s, g_now + 5*SEC)){ sim_close(m->fds[i]); m->fds.erase(m->fds.begin()+i); i--; } } }
    for(auto fd : m->fds) sim_close(fd); m->fds.clear(); });
  return m; }
Full *full_new(int flags){
  Full *w = new Full("n0"); Conf& c = w->c; install_pipe_filters(); c["filterlist"] = "f1"; w->f1 = g_pf["f1"] = new PipeFilter;
  static const int md[] = {1, 1, 2, 4, 3, 5, 7, 6}; w->modes = flags & FULL_SBN ? 1 : md[draw(S_PLAN, 8)]; c["feedmode"] = strf("%d", w->modes);
  if(w->modes & 2){ sim_add_host("m9", 0x0A00000A); static const char *so[] = {"", ",5,1,1", ",2,0,2"}; c["masterservers"] = strf("1,m9,2210%s", so[draw(S_PLAN, 3)]); w->m = smaster_new("n9", 0x0A00000A); }
  static const int ty[] = {3, (flags & FULL_SERVE) ? 1 : 0, 7, 1, 2, 4}; w->types = ty[draw(S_PLAN, flags & FULL_NOEMWIN ? 2 : 6)]; if(flags & FULL_NOEMWIN && w->types & 4) w->types = 3; if(w->types) server_conf(c, w->types); static const char *qt[] = {"10000", "500", "50"}; c["client_queue_read_timeout_ms"] = qt[draw(S_PLAN, 3)]; static const char *wt[] = {"5000", "500"}; c["client_write_timeout_ms"] = wt[draw(S_PLAN, 2)];
  if(draw(S_PLAN, 3) == 2){ c["filterlist"] = "f1:g2"; g_pf["g2"] = new PipeFilter; }
  if(draw(S_PLAN, 3) == 2){ c["rtxdb_dbfname"] = "rtx.db"; c["rtxdb_slots"] = "1024"; }
  if(!(flags & FULL_NOFIFO) && draw(S_PLAN, 4) == 3){ c.write(); std::string f = "n0/dev/g.fifo"; ::mkfifo(f.c_str(), 0600); w->ff.push_back(fifo_filter(f, "ff0")); }
  return w; }
Proc *full_boot(Full *w){ w->n = boot(w->c, w->inc++); if((w->modes & 1)) w->rx.install(w->n); return w->n; }
static void put(Full *w, const Prod& p, int how){
  w->sent.insert(p.seq); w->sent_at[p.seq] = g_now; w->lastsend = g_now;
  if(how == 1){ w->fd.send(p, 300*US); return; }
  w->rx.add(p); std::string data = w->rx.content(p);
  if(how == 2 && w->m->proto == "NBS1"){ for(auto &s : nbs1_packets(p, data)){ w->m->q.push_back(s); if(w->on_master) w->on_master(s); } return; }
  std::string dir = w->c.root + "/spool/" + p.fname.substr(0, 4), path = dir + "/" + p.fbasename; mkdir(dir.c_str(), 0755); spew(path, data);
  if(how == 2){ w->m->q.push_back(nbs2_packet(p, p.fname, path)); return; }
  std::string m = infeed_msg(strf("%u %d %d %d %d %s %s", p.seq, p.type, p.cat, p.code & 255, p.chan, p.fname.c_str(), path.c_str())), ff = w->c["infeedfifo"]; w->inq.push_back(m);
  if(!w->inp){ w->inp = new_proc("insert", 0x0A000001); actor(w->inp, "insert", [w, ff]{ for(;;){ if(w->inq.empty()){ sim_sleep(10*MS, false); continue; } std::string s = w->inq.front(); w->inq.pop_front(); infeed_write(ff, s); } }); } }
u32 full_send(Full *w, size_t maxbody){
  std::vector<int> ms; for(int b : {1, 2, 4}) if(w->modes & b) ms.push_back(b); int how = ms[draw(S_PLAN, ms.size())]; Prod p = w->fd.make(draw(S_PLAN, w->nch), maxbody); put(w, p, how); return p.seq; }
bool full_has(Full *w, u32 seq){ for(size_t i = w->f1->notes.size(); i-- > 0;) if(w->f1->notes[i].seq == seq) return true; return false; }
void full_flow(Full *w, u64 bound, const char *when){
  for(int how : {1, 2, 4}) if(w->modes & how){ u64 t0 = g_now; if(how == 2){ w->m->q.clear(); w->m->mute = false; }
    for(;;){ Prod p = w->fd.make(how == 1 ? (int)draw(S_PLAN, w->nch) : 0, 900); put(w, p, how); if(wait_for([&]{ return !w->n->alive || full_has(w, p.seq); }, how == 2 ? 700*MS + 10*MS*draw(S_PLAN, 100) : 4*SEC, 50*MS) && w->n->alive) break; expect_alive(w->n, when);
      if(g_now > t0 + bound) violation("no-progress", "%.0f s %s no product is announced from the %s: %s | %s", (g_now - t0)/1e9, when, how == 1 ? "broadcast" : how == 2 ? "master" : "input pipe", w->n->logs.empty() ? "" : w->n->logs.back().c_str(), blocked_summary().c_str()); } } }
void full_noise(Full *w, int n){
  if(!w->types) return; std::vector<std::string> kinds; if(w->types & 1) kinds.push_back("NBS1"); if(w->types & 2) kinds.push_back("NBS2"); if(w->types & 4) kinds.push_back("EMWIN");
  for(int i=0;i<n;i++){ int id = w->noise++; Client *k = client_new(kinds[draw(S_PLAN, kinds.size())], 0x0A000100 + id, strf("c%d", id)); k->ps.nocheck = true; w->cl.push_back(k); u64 b = draw(S_PLAN, 6), at_ = draw(S_PLAN, 3) ? draw(S_PLAN, 8*SEC) : 0;
    if(b == 2){ k->hold_until = NEVER; fault_fired("client_stalled"); } else if(b == 3){ k->ident = ""; fault_fired("client_unidentified"); } else if(b == 4){ k->ident = draw(S_PLAN, 2) ? std::string(600, 'x') : std::string("GET / HTTP/1.0\r\n\r\n"); fault_fired("client_garbage"); }
    actor(k->p, "client", [w, k, b, at_]{ if(at_) sim_sleep(at_, false); if(b != 5){ client_run(k, 0x0A000001); return; } while(!k->stop && !w->quit){ fault_fired("client_come_and_go"); k->eof = false; Client *q = k; int fd = actor_connect(q->p, 0x0A000001, 2210, 3*SEC); if(fd >= 0){ if(draw(S_FAULT, 2)) actor_writeall(fd, k->kind, g_now + SEC); sim_sleep(draw(S_FAULT, 4*SEC), false); sim_close(fd); } sim_sleep(100*MS + draw(S_FAULT, 3*SEC), false); } }); } }
void full_check(Full *w, bool dup_ok, bool disk_now){
  if(!w->f1->bad.empty()) violation("announce-format", "malformed filter line: %s", hexs(w->f1->bad[0], 200).c_str());
  std::map<u32,int> cnt; for(auto &t : w->f1->notes){
    auto it = w->rx.byseq.find(t.seq); if(it == w->rx.byseq.end()) violation("announce-unknown", "a product that was never sent was announced: %s", t.raw.c_str()); const Prod& p = w->rx.prods[it->second];
    std::string path = w->c.root + "/spool/" + p.fname.substr(0,4) + "/" + p.fbasename, want = w->rx.content(p); if(t.fname != p.fname || t.fpath != path) violation("announce-name", "product %u announced as %s at %s, expected %s at %s", t.seq, t.fname.c_str(), t.fpath.c_str(), p.fname.c_str(), path.c_str());
    if((t.type & 255) != p.type || (t.cat & 255) != p.cat || (t.code & 255) != (p.code & 255) || t.chan != p.chan) violation("announce-codes", "product %u announced with wrong codes: %s", t.seq, t.raw.c_str());
    if(cnt[t.seq]++ && !dup_ok) violation("announce-duplicate", "product %u was announced again", t.seq);
    if(!t.read_ok) violation("announce-nofile", "product %u announced but %s does not exist", t.seq, path.c_str()); if(t.content != want) violation("content", "product %u: stored %zu bytes that differ from the %zu sent", t.seq, t.content.size(), want.size());
    if(disk_now && cnt[t.seq] == 1 && (size_t)(&t - &w->f1->notes[0]) + 900 > w->f1->notes.size() && std::distance(w->sent.upper_bound(t.seq), w->sent.end()) < 900){ bool ok; std::string s = slurp(path, &ok); if(!ok || s != want) violation("content-later", "product %u, once announced, is no longer intact on disk (%zu bytes of %zu)", t.seq, s.size(), want.size()); } } }
void full_files_whole(Full *w, const std::set<std::string>& except){
  std::map<std::string,int> by; for(size_t i=0;i<w->rx.prods.size();i++){ const Prod& p = w->rx.prods[i]; by[w->c.root + "/spool/" + p.fname.substr(0,4) + "/" + p.fbasename] = i; }
  for(auto &f : list_files(w->c.root + "/spool")){ if(except.count(f)) continue; auto it = by.find(f); if(it == by.end()) violation("stray-file", "%s is no product", f.c_str()); std::string want = w->rx.content(w->rx.prods[it->second]), got = slurp(f); if(got != want) violation("half-written", "%s holds %zu bytes that are not the %zu of the product", f.c_str(), got.size(), want.size()); } }
