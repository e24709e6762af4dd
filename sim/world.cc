#include "world.h"
#include <zlib.h>
#include <stdlib.h>
const std::vector<std::pair<u32,u16>> npchan = {{0xE0000101,1201},{0xE0000102,1202},{0xE0000103,1203},{0xE0000104,1204},{0xE0000105,1205},{0xE0000109,1209},{0xE000010A,1210}};
void be32(std::string& s, u32 v){ s += (char)(v>>24); s += (char)(v>>16); s += (char)(v>>8); s += (char)v; }
void be16(std::string& s, u16 v){ s += (char)(v>>8); s += (char)v; }
u32 rd32(const std::string& s, size_t o){ return ((u32)(u8)s[o]<<24)|((u32)(u8)s[o+1]<<16)|((u32)(u8)s[o+2]<<8)|(u8)s[o+3]; }
u16 rd16(const std::string& s, size_t o){ return ((u16)(u8)s[o]<<8)|(u8)s[o+1]; }
std::string zcomp(const std::string& s){ uLongf n = compressBound(s.size()); std::string o(n, 0); compress2((Bytef*)o.data(), &n, (const Bytef*)s.data(), s.size(), 9); o.resize(n); return o; }
bool zdecomp(const std::string& s, std::string& out, size_t maxn){ out.resize(maxn); uLongf n = maxn; if(uncompress((Bytef*)out.data(), &n, (const Bytef*)s.data(), s.size()) != Z_OK) return false; out.resize(n); return true; }
std::string hexs(const std::string& s, size_t n){ std::string o; for(size_t i=0;i<s.size()&&i<n;i++){ unsigned char c = s[i]; if(c>=32&&c<127&&c!='\\') o += c; else o += strf("\\%02x", c); } if(s.size()>n) o += "..."; return o; }
std::string rand_bytes(size_t n, u64 key){ std::string s(n, 0); u64 x = key*0x9e3779b97f4a7c15ull + 12345; for(size_t i=0;i<n;i++){ x ^= x<<13; x ^= x>>7; x ^= x<<17; s[i] = (char)(x>>32); } return s; }
std::string sbn_frame(u32 seq, int cmd, const std::string& rest, int chan){
  std::string h; h += (char)255; h += (char)0; h += (char)0x14; h += (char)0; h += (char)cmd; h += (char)(chan == 4 ? 4 : 5); h += (char)1; h += (char)0; be32(h, seq); be16(h, 1);
  u32 ck = 0; for(unsigned char c : h) ck += c; be16(h, ck & 0xffff); return h + rest; }
static std::string lc(std::string s){ for(auto &c : s) c = tolower(c); return s; }
void prod_build(Prod& p, u32& sbn){
  std::string hdr = p.wmo_id + " " + p.station + " " + p.time + (p.bbb.empty() ? "" : " " + p.bbb) + "\r\r\n";
  if(!p.awips.empty()) hdr += p.awips + "\r\r\n"; else if(!p.notawips.empty()) hdr += p.notawips + "\r\r\n";
  p.hdr = hdr; std::string full = p.ccb + hdr + p.body; p.plain = full;
  std::vector<std::string> frag; std::string ctrl;
  if(p.ctrlhdr) ctrl = p.ccb + hdr;
  // split the (plain) product; with a control header the first fragment follows a copy of the header
  size_t o = 0; 
  if(p.frames.empty()){
    std::string src = full; size_t first = std::min(src.size(), std::max<size_t>(p.fragvar ? p.fragsz/(1 + p.seq % 5) : p.fragsz, p.ccb.size() + hdr.size() + 4));
    frag.push_back(src.substr(0, first)); o = first; for(size_t k = 1; o < src.size(); k++){ size_t n = p.fragvar ? 1 + (p.fragsz*(1 + (p.seq*2654435761u + k*40503u) % 7))/7 : p.fragsz; frag.push_back(src.substr(o, n)); o += n; }
  }
  p.saved.clear(); p.nfrag = frag.size();
  for(size_t i=0;i<frag.size();i++){
    std::string d = frag[i]; int tt = 0; if(p.compressed){ d = zcomp(d); tt |= 16; }
    if(i == 0) tt |= 1; tt |= 2; if(i + 1 == frag.size()) tt |= 4;
    std::string blk; size_t off = 0; if(i == 0 && p.ctrlhdr){ blk = ctrl; off = ctrl.size(); } blk += d; p.saved += blk;
    std::string r; r += (char)0x14; r += (char)tt; be16(r, 16); be16(r, i); be16(r, off); be16(r, blk.size()); r += (char)0; r += (char)0; be32(r, p.seq);
    if(i == 0){ std::string s; s += (char)1; s += (char)0; be16(s, 36); s += (char)1; s += (char)(p.orig ? 16 : 0); be16(s, 0); be16(s, 0); s += (char)p.type; s += (char)p.cat; be16(s, p.code); be16(s, frag.size() == 1 && p.zero_frag_flag ? 0 : frag.size()); be16(s, 0); s += (char)0; s += (char)0; be32(s, p.orig); be32(s, 0); be32(s, 0); be16(s, 1); be16(s, 0); r += s; }
    p.frames.push_back(sbn_frame(++sbn, 3, r + blk, p.chan));
  }
  std::string n = lc(p.station) + "_" + lc(p.wmo_id); 
  if(!p.awips.empty()){ std::string a = p.awips; size_t k = a.find(' '); if(k != std::string::npos) a.resize(k); n += "-" + lc(a); } else if(!p.notawips.empty()) n += "+" + lc(p.notawips); else if(!p.bbb.empty() && !p.ctrlhdr) n += "+" + lc(p.bbb); // (a header block that ends at the first line yields no suffix)
  p.fname = n; p.fbasename = n + "." + p.time + "_" + strf("%u", p.seq);
}
static const char *WMO[] = {"SXUS20","FTUS80","NOUS42","SDUS53","TIGE01","HTNC85","IUSZ42"};
static const char *STN[] = {"KWBC","KOUN","TJSJ","KNES","KLWX"};
Prod rand_prod(u32 seq, int chan, size_t maxbody, bool allowz){
  Prod p; p.seq = seq; p.chan = chan; p.wmo_id = WMO[draw(S_PLAN, 7)]; p.station = STN[draw(S_PLAN, 5)]; p.time = strf("%02d%02d%02d", 1+(int)(seq%28), (int)(seq/7%24), (int)(seq/3%60));
  u64 k = draw(S_PLAN, 6); if(k == 1) p.awips = "AFDLWX"; else if(k == 2) p.awips = "TAFSJU"; else if(k == 3) p.notawips = "GRIB"; else if(k == 4) p.bbb = "PAA"; else if(k == 5) p.awips = "ADRNE ";
  if(draw(S_PLAN, 3) != 2){ p.ccb = std::string(1, (char)0x40) + rand_bytes(23, seq); }
  p.type = 1 + draw(S_PLAN, 5); p.cat = draw(S_PLAN, 8); p.code = draw(S_PLAN, 200);
  size_t n; switch(draw(S_PLAN, 5)){ case 0: n = 1 + draw(S_PLAN, 60); break; case 1: n = 200 + draw(S_PLAN, 1500); break; case 2: n = 2000 + draw(S_PLAN, 6000); break; case 3: n = draw(S_PLAN, maxbody); break; default: n = 1 + draw(S_PLAN, 300); }
  n = std::min(n, maxbody); 
  p.body = rand_bytes(n, seq*7919ull + chan); if(n) { for(size_t i=0;i<n && i<40;i++) p.body[i] = 'a' + (u8)p.body[i]%26; } // text-like start: no header ambiguity
  if(p.awips.empty() && p.notawips.empty() && !p.bbb.empty()) p.body = "\x01" + p.body; else if(p.awips.empty() && p.notawips.empty()) p.body = "\x01" + p.body;
  size_t fs[] = {4000, 1000, 333, 120}; p.fragsz = fs[draw(S_PLAN, 4)]; if(p.body.size()/p.fragsz > 40) p.fragsz = 4000;
  u64 c = draw(S_PLAN, 4); if(c == 1){ p.ctrlhdr = true; } else if(c == 2 && allowz){ p.ctrlhdr = true; p.compressed = true; }
  p.fragvar = draw(S_PLAN, 2); p.zero_frag_flag = draw(S_PLAN, 2);
  return p;
}
void inject_frame(int chan, const std::string& f){ udp_inject(0x0A0000FE, npchan[chan].first, npchan[chan].second, f); }

// ---------------------------------------------------------------- configuration
u32 node_ip(const std::string& root){ return 0x0A000001 + atoi(root.c_str()+1); }
Conf::Conf(const std::string& r):root(r){
  auto &c = o; c["user"]=""; c["group"]=""; c["home"]=""; c["startscript"]=""; c["stopscript"]=""; c["scheduler"]=r+"/scheduler"; c["spooldir"]=r+"/spool"; c["spooldb_fname"]=r+"/db/spool.state"; c["spooldb_slots"]="1024";
  c["cspoolbdb_dir"]=r+"/cspool"; c["mspoolbdb_dbcache_mb"]="4"; c["cspoolbdb_dbcache_mb"]="4"; c["mspoolbdb_dbstats_logfile"]=r+"/stats/mdbstats"; c["mspoolbdb_panicfile"]=r+"/run/bdbpanic"; c["devdir"]=r+"/dev"; c["filterlist"]="";
  c["emwinfilter"]=""; c["emwinfilter_fifo"]=r+"/run/emwinfilter.fifo"; c["netfilter_enable"]="0"; c["netfilter"]=""; c["httpd_enable"]="0"; c["httpd"]="httpd"; c["pidfile"]=r+"/run/nbspd.pid"; c["qstatefifo"]=r+"/run/nbspd.fifo"; c["statusfile"]=r+"/stats/status"; c["missinglogfile"]=r+"/stats/missing"; c["rtxlogfile"]=r+"/stats/rtx"; c["qstatelogfile"]=r+"/stats/qstate"; c["qdbstatslogfile"]=r+"/stats/qdbstats"; c["serverstatefile"]=r+"/stats/server"; c["serveractivefile"]=r+"/stats/active"; c["serverthreadsfile"]=r+"/stats/sthreads"; c["filterserver_statefile"]=r+"/stats/filter"; c["slavestatsfile"]=r+"/stats/slavestats";
  c["servertype"]="0"; c["dbhome"]=r+"/db"; c["dbcachemb"]="4"; c["infeedfifo"]=r+"/run/infeed.fifo"; c["infeedfifogrp"]="root"; c["memfileminsize"]="8192"; c["memfileblocksize"]="1024"; c["pctlmaxmemsoft"]="64"; c["pctlmaxmemhard"]="128";
}
std::string Conf::write(){
  std::string s; for(auto &k : o) s += "set " + k.first + " {" + k.second + "}\n"; 
  for(auto d : {"", "/spool","/db","/dev","/run","/stats","/cspool"}) mkdir((root + d).c_str(), 0755);
  std::string f = root + "/nbspd.conf"; spew(f, s); return f; }
Proc *boot(Conf& c, int inc, i64 off){ std::string f = c.write(); std::string nm = inc ? strf("%s.%d", c.root.c_str(), inc) : c.root; return start_node("nbspd", nm, node_ip(c.root), {"nbspd","-F","-c",f}, off); }
bool has_log(Proc *p, const std::string& s){ for(auto &l : p->logs) if(l.find(s) != std::string::npos) return true; return false; }
size_t count_log(Proc *p, const std::string& s){ size_t n = 0; for(auto &l : p->logs) if(l.find(s) != std::string::npos) n++; return n; }
bool wait_for(std::function<bool()> f, u64 tmo, u64 step){ u64 d = g_now + tmo; while(!f()){ if(g_now >= d) return false; sim_sleep(step, false); } return true; }
bool wait_log(Proc *p, const std::string& s, u64 t){ return wait_for([=]{ return has_log(p, s) || !p->alive; }, t) && has_log(p, s); }
bool node_ready(Proc *p, u64 t){ // the main loop has been entered: the pid file exists and readers are spawned
  return wait_for([=]{ return !p->alive || exists(p->name.substr(0, p->name.find('.')) + "/run/nbspd.pid"); }, t) && p->alive && (sim_sleep(300*MS, false), p->alive); }
void expect_alive(Proc *p, const char *when){ if(!p->alive){ std::string l; for(size_t i = p->logs.size() > 8 ? p->logs.size()-8 : 0; i < p->logs.size(); i++) l += p->logs[i] + " | "; violation("daemon-exit", "%s terminated on its own (exit %d) %s: %s", p->name.c_str(), p->exit_code, when, l.c_str()); } }
void clean_stop(Proc *p, u64 bound, const char *when){
  signal_proc(p, SIGTERM); u64 t0 = g_now;
  if(!wait_exit(p, bound)) violation("shutdown-hang", "%s did not exit within %.1f s of SIGTERM %s: %s", p->name.c_str(), bound/1e9, when, blocked_summary().c_str());
  if(p->exit_code != 0) violation("shutdown-status", "%s exited with status %d after SIGTERM %s", p->name.c_str(), p->exit_code, when);
  R.probes["stop_ms_max"] = std::max<u64>(R.probes["stop_ms_max"], (g_now-t0)/MS); }
// ---------------------------------------------------------------- pipe filters
std::map<std::string, PipeFilter*> g_pf; static u64 gsn = 0; u64 next_gsn(){ return ++gsn; }
std::vector<std::string> split(const std::string& s, char c){ std::vector<std::string> v; size_t i = 0; for(;;){ size_t j = s.find(c, i); if(j == std::string::npos){ v.push_back(s.substr(i)); break; } v.push_back(s.substr(i, j-i)); i = j+1; } return v; }
std::vector<std::string> lines(const std::string& s){ auto v = split(s, '\n'); if(!v.empty() && v.back().empty()) v.pop_back(); return v; }
bool parse_note(const std::string& l, Note& n, bool ws){
  auto f = split(l, ' '); if(f.size() != (ws ? 8u : 7u)) return false; for(int i=0;i<5;i++){ if(f[i].empty()) return false; for(char c : f[i]) if(!isdigit(c) && !(i && c=='-')) return false; }
  n.seq = strtoul(f[0].c_str(), 0, 10); n.type = atoi(f[1].c_str()); n.cat = atoi(f[2].c_str()); n.code = atoi(f[3].c_str()); n.chan = atoi(f[4].c_str()); n.fname = f[5]; n.fpath = f[6]; if(ws) n.size = strtoul(f[7].c_str(), 0, 10); n.raw = l; return !n.fname.empty() && !n.fpath.empty(); }
static void *pipe_filter_main(Proc *c, const std::string& cmd, int fd){
  PipeFilter *f = g_pf[cmd]; if(!f){ // unknown command: behaves like /bin/sh with "command not found"
    return (void*)127; }
  f->opens++; f->starts.push_back(f->notes.size()); std::string buf; char b[4096]; int handled = 0;
  for(;;){
    while(f->hang_until > g_now) sim_sleep(std::min<u64>(f->hang_until - g_now, 200*MS), false);
    if(f->die){ f->closes++; f->deaths.push_back(g_now); f->partials.push_back(""); fault_fired("filter_died"); f->die = false; return (void*)1; }
    ssize_t n = sim_read(fd, b, sizeof b); if(n <= 0) break; buf.append(b, n);
    size_t k; while((k = buf.find('\n')) != std::string::npos){
      std::string l = buf.substr(0, k); buf.erase(0, k+1); f->rawlines.push_back(l); if(l.empty()){ f->ends++; continue; }   // "\n" = end of input request
      Note nt; nt.t = g_now; nt.gsn = next_gsn(); bool ok = parse_note(l, nt) || parse_note(l, nt, true);
      if(!ok){ f->bad.push_back(l); continue; }
      if(f->slurp_content){ nt.content = slurp(nt.fpath, &nt.read_ok); }
      f->notes.push_back(nt); tr("filter %s got %s", cmd.c_str(), l.c_str());
      if(f->delay_max) sim_sleep(draw(S_FAULT, f->delay_max), false);
      if(f->exit_after >= 0 && ++handled > f->exit_after){ f->closes++; f->deaths.push_back(g_now); f->partials.push_back(""); fault_fired("filter_died"); f->exit_after = -1; return (void*)1; }
    }
  }
  f->partial = buf; f->partials.push_back(buf); f->closes++; return nullptr;
}
void install_pipe_filters(){ g_popen_main = pipe_filter_main; }
// ---------------------------------------------------------------- knobs
void net_knobs_lossless(){ static const u64 j[] = {0, 200*US, 3*MS, 40*MS}; N.udp_min = 50*US; N.udp_jit = j[draw(S_PLAN, 4)]; N.tcp_min = 100*US; N.tcp_jit = j[draw(S_PLAN, 4)]; static const double sg[] = {0, 0.2, 0.7}; N.p_tcp_seg = sg[draw(S_PLAN, 3)]; }
void pick_net_knobs(bool loss){
  net_knobs_lossless(); if(!loss) return; static const double p[] = {0, 0.01, 0.05, 0.2};
  N.p_drop = p[draw(S_PLAN, 4)]; N.p_dup = p[draw(S_PLAN, 4)]; N.p_reorder = p[draw(S_PLAN, 4)]; static const u64 rm[] = {200*US, 5*MS, 100*MS}; N.reorder_max = rm[draw(S_PLAN, 3)];
}
void pick_io_knobs(Proc *p, bool files, bool mem){
  static const double q[] = {0, 0.002, 0.01, 0.05}; p->io.on = true;
  static const double st[] = {0, 0.2, 0.6}; p->io.p_tcp_short = st[draw(S_PLAN, 3)]; p->io.p_short_read = st[draw(S_PLAN, 3)]/2;
  static const double ds[] = {0, 0.01, 0.1}; p->io.p_stall = ds[draw(S_PLAN, 3)]; static const u64 sm[] = {1*MS, 50*MS, 2*SEC}; p->io.stall_max = sm[draw(S_PLAN, 3)];
  if(files){ p->io.p_enospc = q[draw(S_PLAN, 4)]; p->io.p_eio = q[draw(S_PLAN, 4)]; p->io.p_short_write = q[draw(S_PLAN, 4)]; p->io.p_open_fail = q[draw(S_PLAN, 4)]; }
  if(mem){ p->io.p_malloc = q[draw(S_PLAN, 4)]; p->io.p_thread = q[draw(S_PLAN, 4)]; }
}
void sample(const std::string& s){ if(RC.samples.size() < 4) RC.samples.push_back(s); }
// ---------------------------------------------------------------- actors
Fiber *actor(Proc *p, const std::string& name, std::function<void()> f){ return spawn(p, name, [f]{ f(); return (void*)0; }); }
int actor_connect(Proc *a, u32 ip, u16 port, u64 tmo){
  int fd = sim_socket(AF_INET, SOCK_STREAM, 0); if(fd < 0) return -1; fd_get(a, fd)->nb = true; struct sockaddr_in in; memset(&in,0,sizeof in); in.sin_family = AF_INET; in.sin_port = htons(port); in.sin_addr.s_addr = htonl(ip);
  int r = sim_connect(fd, (struct sockaddr*)&in, sizeof in); if(r < 0 && errno != EINPROGRESS){ sim_close(fd); return -1; }
  struct pollfd pf = {fd, POLLOUT, 0}; sim_poll(&pf, 1, tmo/MS); if(!(pf.revents & POLLOUT) || (pf.revents & (POLLERR|POLLHUP))){ sim_close(fd); return -1; } return fd; }
ssize_t actor_read_some(int fd, std::string& out, u64 deadline){
  struct pollfd pf = {fd, POLLIN, 0}; if(g_now >= deadline) return -2; int r = sim_poll(&pf, 1, std::max<u64>(1, (deadline - g_now)/MS)); if(r == 0) return -2; char b[16384]; ssize_t n = sim_read(fd, b, sizeof b); if(n > 0) out.append(b, n); return n; }
bool actor_readn(int fd, std::string& out, size_t n, u64 deadline){ out.clear(); while(out.size() < n){ struct pollfd pf = {fd, POLLIN, 0}; if(g_now >= deadline) return false; int r = sim_poll(&pf, 1, std::max<u64>(1, (deadline - g_now)/MS)); if(r == 0) return false; char b[16384]; ssize_t k = sim_read(fd, b, std::min(sizeof b, n - out.size())); if(k <= 0) return false; out.append(b, k); } return true; }
bool actor_writeall(int fd, const std::string& s, u64 deadline){ size_t o = 0; while(o < s.size()){ struct pollfd pf = {fd, POLLOUT, 0}; if(g_now >= deadline) return false; int r = sim_poll(&pf, 1, std::max<u64>(1, (deadline - g_now)/MS)); if(r == 0) return false; fd_get(cur->proc, fd)->nb = true; ssize_t n = sim_write(fd, s.data()+o, s.size()-o); if(n < 0) { if(errno == EAGAIN) continue; return false; } o += n; } return true; }
