// Simulated kernel: processes, fds, files, FIFOs, pipes, UDP, TCP, poll.
#include "run.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/ioctl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#include <signal.h>
#include <dirent.h>
#include <dlfcn.h>
#include <algorithm>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <sys/uio.h>
#include <sys/file.h>

std::vector<Proc*> g_procs; static int next_pid = 1000;
std::function<void*(Proc*, const std::string&, int)> g_popen_main;
std::function<void(Proc*, const std::string&)> g_exec_hook, g_log_hook_unused;
std::function<void(Proc*, const std::string&, int)> g_open_hook;
std::function<void(Proc*, const std::string&)> g_log_hook;
std::function<void(Proc*, const std::string&, const std::string&)> g_fs_hook;
std::function<void(Proc*, const char*)> g_readdir_hook;   // an entry was read from a directory
std::vector<std::string> g_path_escapes;
std::map<std::string, Image> g_images;

std::string ipstr(u32 ip){ return strf("%u.%u.%u.%u", ip>>24, (ip>>16)&255, (ip>>8)&255, ip&255); }
std::string slurp(const std::string& path, bool *ok){
  int fd = open(path.c_str(), O_RDONLY|O_NONBLOCK); std::string s; if(ok) *ok = fd >= 0; if(fd < 0) return s;
  char b[65536]; ssize_t n; while((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s;
}
void spew(const std::string& path, const std::string& d){
  int fd = open(path.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); if(fd < 0){ fprintf(stderr, "spew %s: %m\n", path.c_str()); _exit(3);} 
  size_t o = 0; while(o < d.size()){ ssize_t n = write(fd, d.data()+o, d.size()-o); if(n <= 0) break; o += n; } close(fd);
}
bool exists(const std::string& p){ struct stat st; return stat(p.c_str(), &st) == 0; }
void add_log(Proc *p, const std::string& s){
  p->logs.push_back(s); if(p->logs.size() > 4000) p->logs.erase(p->logs.begin(), p->logs.begin()+2000);
  hash_ev(0x106, fnv(s.data(), s.size())); tr("LOG %s", s.c_str()); if(g_log_hook) g_log_hook(p, s);
}

// ---------------------------------------------------------------- procs
Proc *new_proc(const std::string& name, u32 ip){
  Proc *p = new Proc; p->id = g_procs.size(); p->name = name; p->ip = ip; p->pid = ++next_pid; g_procs.push_back(p); return p;
}
u64 realtime_ns(Proc *p){ return g_epoch + g_now + (p ? p->rt_off : 0); }
void set_clock_offset(Proc *p, i64 off){
  tr("clock of %s steps %+.3fs", p->name.c_str(), (off - p->rt_off)/1e9);
  p->rt_off = off; fault_fired("clock_step");
  for(auto f : all_fibers()) if(f->proc == p && f->st == Fiber::BLOCKED && f->rt_deadline && f->timer_seq){
    at_cancel(f->timer_seq); i64 d = f->rt_abs - (i64)g_epoch - p->rt_off; u64 t = d <= (i64)g_now ? g_now : (u64)d;
    f->timer_seq = at(t, [f]{ f->timer_seq = 0; f->timedout = true; make_runnable(f); });
  }
}
int fd_add(Proc *p, FileObj *o, int minfd){
  int fd = minfd; while(p->fds.count(fd)) fd++;
  if(fd >= p->fd_limit) return -1;
  p->fds[fd] = o; o->refs++; return fd;
}
FileObj *fd_get(Proc *p, int fd){ auto it = p->fds.find(fd); return it == p->fds.end() ? nullptr : it->second; }
void file_unref(FileObj *o){ if(--o->refs == 0) o->on_close(); }
void end_proc(Proc *p, int code, bool crashed){
  if(!p->alive) return;
  p->alive = false; p->exit_code = code; p->crashed = crashed;
  tr("proc %s ends code=%d crashed=%d", p->name.c_str(), code, crashed); hash_ev(0xe0d, code*2+crashed);
  if(crashed) RC.note += p->name + " crashed; ";
  kill_fibers(p, nullptr);
  auto fds = p->fds; p->fds.clear(); for(auto &k : fds) file_unref(k.second);
  for(auto &f : p->on_kill) f();
  wake_all(p->exitq);
}
void crash_proc(Proc *p){ 
  if(!p->alive) return; fault_fired("crash"); end_proc(p, 128+9, true);
  if(cur && cur->proc == p) { cur->cleanup = nullptr; fiber_exit(nullptr); }
}
bool wait_exit(Proc *p, u64 timeout){ u64 d = g_now + timeout; while(p->alive){ if(g_now >= d) return false; block_on({&p->exitq}, d, false); } return true; }
static bool sig_blocked(Proc *p, int sig){ bool any=false; for(auto f : all_fibers()) if(f->proc == p && f->st != Fiber::DONE){ any = true; if(!(f->sigmask & (1ull<<sig))) return false; } return any; }
void signal_proc(Proc *p, int sig){
  if(!p->alive) return; tr("signal %d -> %s", sig, p->name.c_str());
  if(sig == SIGKILL){ crash_proc(p); return; }
  if(p->sigign.count(sig)) return;
  if(!p->node || !sig_blocked(p, sig)){
    if(sig == SIGCHLD || sig == SIGCONT || sig == SIGURG || sig == SIGWINCH) return;
    tr("default action of signal %d", sig); add_log(p, strf("terminated by signal %d", sig));
    end_proc(p, 128+sig, false); if(cur && cur->proc == p){ cur->cleanup=nullptr; fiber_exit(nullptr);} return;
  }
  p->sigpend.insert(sig); wake_all(p->sigq);
}
extern "C" { typedef int (*mainfn_t)(int, char**); }
void node_exit(Proc *p, int code);
Proc *start_node(const std::string& image, const std::string& name, u32 ip, const std::vector<std::string>& args, i64 off){
  Image &im = g_images[image];
  if(im.used >= im.copies.size()) { finish_run("images-exhausted"); }
  Proc *p = new_proc(name, ip); p->rt_off = off; Node *n = new Node; p->node = n; n->proc = p; n->args = args; n->dl = im.copies[im.used++];
  mainfn_t m = (mainfn_t)dlsym(n->dl, "sim_node_main"); Dl_info di; dladdr((void*)m, &di); n->base = (u64)di.dli_fbase;
  spawn(p, "main", [p, n, m]() -> void* {
    std::vector<char*> av; for(auto &a : n->args) av.push_back(strdup(a.c_str())); av.push_back(nullptr);
    int r = m(n->args.size(), av.data()); node_exit(p, r); return nullptr; });
  return p;
}
// An image whose functions are called one by one instead of its main program
Proc *lib_node(const std::string& image, const std::string& name, u32 ip){
  Image &im = g_images[image]; if(im.used >= im.copies.size()) finish_run("images-exhausted");
  Proc *p = new_proc(name, ip); Node *n = new Node; p->node = n; n->proc = p; n->dl = im.copies[im.used++]; Dl_info di; dladdr(dlsym(n->dl, "sim_node_main"), &di); n->base = (u64)di.dli_fbase; return p;
}
void *lib_sym(Proc *p, const char *s){ return dlsym(p->node->dl, s); }
void node_exit(Proc *p, int code){
  Node *n = p->node; 
  if(n){ if(n->exiting){ /* exit() from an exit handler or a second thread */ if(n->exiting != cur->id){ for(;;) sim_sleep(1000*SEC, false);} }
    n->exiting = cur->id; n->exit_code = code;
    while(!n->atexits.empty()){ auto f = n->atexits.back(); n->atexits.pop_back(); f(); }
  }
  extern void flush_files(Proc*); flush_files(p);
  end_proc(p, code, false); cur->cleanup = nullptr; fiber_exit(nullptr);
}

// ---------------------------------------------------------------- common
static const char *cur_op = "";
std::function<void(Proc*, const char*)> g_op_hook;
std::function<void(Proc*, int kind, u32 rip, const std::string& label, const char*, size_t)> g_wr_hook;   // accepted bytes: kind 1 pipe or fifo (label = command), 2 tcp
struct CrashPlan { i64 in = -1; }; 
std::map<Proc*, CrashPlan> g_crash;
void crash_after_ops(Proc *p, i64 ops){ g_crash[p].in = ops; }
static Proc *enter(const char *op, u64 cost = 1*US){
  cur_op = op; Proc *p = cur->proc; yield_point(op, cost);
  hash_ev(0x0b, fnv(op, strlen(op)));
  if(!g_crash.empty()){ auto it = g_crash.find(p); if(it != g_crash.end() && it->second.in >= 0 && it->second.in-- == 0){ g_crash.erase(it); tr("crash at %s", op); crash_proc(p); } }
  if(g_op_hook) g_op_hook(p, op);
  return p;
}
static bool escape(Proc *p, const char *path, bool wr){
  std::string s = path; std::vector<std::string> parts; bool bad = !s.empty() && s[0] == '/';
  size_t i = 0; while(i <= s.size()){ size_t j = s.find('/', i); if(j == std::string::npos) j = s.size(); std::string c = s.substr(i, j-i); i = j+1;
    if(c == "..") { if(parts.empty()) bad = true; else parts.pop_back(); } else if(!c.empty() && c != ".") parts.push_back(c); }
  if(!bad && wr && p->node){ std::string root = p->name.substr(0, p->name.find('.')); if(parts.empty() || (parts[0] != root && parts[0] != "shared")) bad = true; }
  if(bad && wr){ g_path_escapes.push_back(s); tr("PATH ESCAPE %s", path); probe("path_escape"); }
  return bad;
}
static bool io_on(Proc *p){ return p && p->node && p->io.on; }
static void stall(Proc *p){ if(io_on(p) && chance(S_IO, p->io.p_stall)){ fault_fired("disk_stall"); sim_sleep(1*US + draw(S_IO, p->io.stall_max), false); } }

// ---------------------------------------------------------------- regular files
struct RegFile : FileObj {
  int rfd; RegFile(int f):rfd(f){}
  i64 read(void *b, size_t n, bool) override { return ::read(rfd, b, n); }
  i64 write(const void *b, size_t n, bool) override { return ::write(rfd, b, n); }
  short pollmask() override { return POLLIN|POLLOUT; }
  void on_close() override { ::close(rfd); }
};
struct NullDev : FileObj { i64 read(void*,size_t,bool) override {return 0;} i64 write(const void*,size_t n,bool) override {return n;} short pollmask() override {return POLLIN|POLLOUT;} };

// ---------------------------------------------------------------- FIFOs and pipes
size_t g_fifo_cap = 65536, g_popen_cap = 65536;
struct Chan { std::string buf; size_t cap = g_fifo_cap; int readers = 0, writers = 0; u64 wver = 0; WaitQ q; bool is_tcp=false; };
static std::map<std::pair<u64,u64>, Chan*> fifos;
struct PipeEnd : FileObj {
  Chan *c; bool rd, wr; bool saw_writer = false; u64 wver0;
  PipeEnd(Chan *ch, bool r, bool w):c(ch),rd(r),wr(w){ wver0 = c->wver; if(rd) c->readers++; if(wr){ c->writers++; c->wver++; } wake_all(c->q); }
  void on_close() override { if(rd) c->readers--; if(wr) c->writers--; wake_all(c->q); if(c->readers==0 && c->writers==0) c->buf.clear(); }
  i64 read(void *b, size_t n, bool nb) override {
    if(!rd){ errno = EBADF; return -1; }
    if(n == 0) return 0;
    while(c->buf.empty()){
      if(c->writers == 0) return 0;
      if(nb){ errno = EAGAIN; return -1; }
      block_on({&c->q}, NEVER, true);
    }
    size_t k = std::min(n, c->buf.size());
    if(io_on(cur->proc) && k > 1 && chance(S_IO, cur->proc->io.p_tcp_short)){ k = 1 + draw(S_IO, k); fault_fired("short_read"); }
    memcpy(b, c->buf.data(), k); c->buf.erase(0, k); wake_all(c->q); return k;
  }
  i64 write(const void *b, size_t n, bool nb) override {
    if(!wr){ errno = EBADF; return -1; }
    size_t done = 0;
    while(true){
      if(c->readers == 0){ if(done) return done; signal_sigpipe(); errno = EPIPE; return -1; }
      size_t room = c->cap - std::min(c->cap, c->buf.size()); size_t left = n - done;
      if(left <= 4096 && n <= 4096){ if(room >= left){ c->buf.append((const char*)b+done, left); wake_all(c->q); return n; } }
      else if(room > 0){
        size_t k = std::min(room, left); 
        if(nb && io_on(cur->proc) && k > 1 && chance(S_IO, cur->proc->io.p_tcp_short)){ k = 1 + draw(S_IO, k); fault_fired("short_write"); }
        c->buf.append((const char*)b+done, k); done += k; wake_all(c->q);
        if(done == n) return n; if(nb) return done; }
      if(nb){ if(done) return done; errno = EAGAIN; return -1; }
      block_on({&c->q}, NEVER, true);
    }
  }
  static void signal_sigpipe(){ extern void thread_sigpipe(); thread_sigpipe(); }
  short pollmask() override {
    short m = 0;
    if(rd){ if(!c->buf.empty()) m |= POLLIN; if(c->writers == 0 && c->wver != wver0) m |= POLLHUP; }
    if(wr){ if(c->cap >= c->buf.size() + 4096) m |= POLLOUT; if(c->readers == 0) m |= POLLERR; }
    return m;
  }
  void waitqs(std::vector<WaitQ*>& v) override { v.push_back(&c->q); }
};
void thread_sigpipe(){
  Proc *p = cur->proc; if(!p->node) return; if(p->sigign.count(SIGPIPE)) return;
  if(cur->sigmask & (1ull<<SIGPIPE)){ p->sigpend.insert(SIGPIPE); wake_all(p->sigq); return; }
  add_log(p, "killed by SIGPIPE"); probe("sigpipe_death"); end_proc(p, 128+SIGPIPE, false); cur->cleanup=nullptr; fiber_exit(nullptr);
}
int sim_pipe_pair(Proc *rp, int *rfd, Proc *wp, int *wfd, size_t cap){
  Chan *c = new Chan; c->cap = cap; *rfd = fd_add(rp, new PipeEnd(c, true, false)); *wfd = fd_add(wp, new PipeEnd(c, false, true)); return 0;
}
size_t fifo_backlog(const std::string& path){ struct stat st; if(stat(path.c_str(), &st)) return 0; auto it = fifos.find({st.st_dev, st.st_ino}); return it == fifos.end() ? 0 : it->second->buf.size(); }

// ---------------------------------------------------------------- UDP
std::function<void(Proc*, u32 group, u16 port, const std::string&)> g_udp_hook; std::map<u32,u64> g_udp_received, g_udp_overflow;
struct Udp : FileObj {
  Proc *p; u16 port = 0; u32 addr = 0; std::set<u32> groups; struct D { std::string d; u32 ip; u16 port; }; std::deque<D> q; size_t bytes = 0, cap = 212992; WaitQ wq; u32 dstip=0; u16 dstport=0;
  short pollmask() override { return (q.empty() ? 0 : POLLIN) | POLLOUT; }
  void waitqs(std::vector<WaitQ*>& v) override { v.push_back(&wq); }
  void on_close() override { auto &s = socks(); s.erase(std::remove(s.begin(), s.end(), this), s.end()); }
  static std::vector<Udp*>& socks(){ static std::vector<Udp*> v; return v; }
  i64 recv(void *b, size_t n, bool nb, struct sockaddr *sa, socklen_t *sl){
    while(q.empty()){ if(nb){ errno = EAGAIN; return -1; } block_on({&wq}, NEVER, true); }
    if(io_on(p) && chance(S_IO, p->io.p_sock)){ fault_fired("recv_error"); errno = ENOBUFS; return -1; }
    D d = std::move(q.front()); q.pop_front(); bytes -= d.d.size() + 256; size_t k = std::min(n, d.d.size()); memcpy(b, d.d.data(), k); if(g_udp_hook) g_udp_hook(p, groups.empty() ? 0 : *groups.begin(), port, d.d);
    if(sa && sl){ struct sockaddr_in in; memset(&in,0,sizeof in); in.sin_family=AF_INET; in.sin_port=htons(d.port); in.sin_addr.s_addr=htonl(d.ip); memcpy(sa,&in,std::min<size_t>(*sl,sizeof in)); *sl=sizeof in; }
    return k;
  }
  i64 read(void *b, size_t n, bool nb) override { return recv(b, n, nb, nullptr, nullptr); }
};
static std::set<std::pair<u32,u32>> parts;
static bool partitioned(u32 a, u32 b){ if(a == b) return false; return parts.count({a,b}) || parts.count({b,a}) || parts.count({a,0}) || parts.count({b,0}); }

static void udp_deliver(u32 src, u16 sport, u32 dst, u16 port, const std::string& d){
  for(auto s : Udp::socks()){
    if(s->port != port) continue;
    bool mc = (dst>>28) == 14;
    if(mc ? !s->groups.count(dst) : !(s->p->ip == dst || dst == 0x7f000001)) continue;
    // Linux delivers multicast to sockets bound to the group (or ANY)
    if(mc && s->addr != 0 && s->addr != dst) continue;
    if(partitioned(src, s->p->ip)){ fault_fired("udp_partition_drop"); continue; }
    if(s->bytes + d.size() + 256 > s->cap){ fault_fired("udp_rcvbuf_overflow"); g_udp_overflow[s->p->ip]++; continue; }
    s->q.push_back({d, src, sport}); s->bytes += d.size() + 256; g_udp_received[s->p->ip]++; wake_all(s->wq);
  }
}
void udp_inject(u32 src, u32 dst, u16 port, const std::string& data){
  if(chance(S_NET, N.p_drop)){ fault_fired("udp_drop"); return; }
  int copies = 1; if(chance(S_NET, N.p_dup)){ fault_fired("udp_dup"); copies = 2; }
  for(int i=0;i<copies;i++){
    u64 d = N.udp_min + (N.udp_jit ? draw(S_NET, N.udp_jit) : 0);
    static u64 last = 0; bool re = chance(S_NET, N.p_reorder);
    u64 t = g_now + d; if(re){ t += 1 + draw(S_NET, N.reorder_max); fault_fired("udp_reorder"); } else { if(t <= last) t = last + 1; last = t; }
    std::string dd = data;
    if(!dd.empty() && chance(S_NET, N.p_corrupt)){ size_t k = draw(S_NET, dd.size()); dd[k] ^= 1 + draw(S_NET, 255); fault_fired("udp_corrupt"); if(draw(S_NET,4)==3) dd.resize(draw(S_NET, dd.size())); }
    at(t, [=]{ udp_deliver(src, 40000, dst, port, dd); });
  }
}
size_t udp_queue_len(Proc *p){ size_t n = 0; for(auto s : Udp::socks()) if(s->p == p) n += s->q.size(); return n; }

// ---------------------------------------------------------------- TCP
size_t g_tcp_sndcap = 87040;
struct Tcp : FileObj {
  enum { NEW, LISTEN, CONNECTING, CONN, DEAD } st = NEW; Proc *p; u32 lip = 0, rip = 0; u16 lport = 0, rport = 0;
  Tcp *peer = nullptr; std::string snd, rcv; size_t sndcap = g_tcp_sndcap, rcvcap = 131072; bool fin_queued = false, fin_rcvd = false, rst = false, closed = false, shut_rd = false; int soerr = 0;
  bool pumping = false; WaitQ wq; std::deque<Tcp*> backlog; int backlog_max = 5; u64 sent_total = 0; u64 pump_ver = 0;
  static std::vector<Tcp*>& all(){ static std::vector<Tcp*> v; return v; }
  void waitqs(std::vector<WaitQ*>& v) override { v.push_back(&wq); }
  short pollmask() override {
    short m = 0;
    if(st == LISTEN) return backlog.empty() ? 0 : POLLIN;
    if(st == CONNECTING) return 0;
    if(st == NEW) return POLLOUT|POLLHUP|(soerr ? POLLERR|POLLIN : 0);
    if(soerr) m |= POLLERR;
    if(!rcv.empty() || fin_rcvd || rst || shut_rd) m |= POLLIN;
    if(fin_rcvd) m |= POLLRDHUP;
    if(rst || (fin_rcvd && fin_queued)) m |= POLLHUP;
    if(rst || (!fin_queued && sndcap - std::min(sndcap,snd.size()) >= sndcap/3)) m |= POLLOUT;
    return m;
  }
  u64 lat(){ return N.tcp_min + (N.tcp_jit ? draw(S_NET, N.tcp_jit) : 0); }
  void pump(){
    if(pumping || !peer) return; if(snd.empty() && !fin_queued) return;
    if(partitioned(lip, rip)) return;         // resumed by heal
    if(!snd.empty() && peer->rcv.size() >= peer->rcvcap && !peer->closed) return;  // zero window: resumed by peer's read
    pumping = true; u64 d = lat();
    if(chance(S_NET, N.p_stall)){ d += draw(S_NET, N.stall_max); fault_fired("tcp_stall"); }
    at(g_now + d, [this]{ pumping = false; do_pump(); });
  }
  void do_pump(){
    if(rst || !peer) return;
    if(partitioned(lip, rip)) return;
    if(!snd.empty()){
      if(peer->closed){ got_rst(ECONNRESET); return; }
      size_t room = peer->rcvcap - std::min(peer->rcvcap, peer->rcv.size()); size_t k = std::min(room, snd.size());
      if(k > 40 && chance(S_NET, N.p_tcp_seg)){ k = 1 + draw(S_NET, k); fault_fired("tcp_split"); }
      if(chance(S_NET, N.p_tcp_rst)){ fault_fired("tcp_rst"); got_rst(ECONNRESET); peer->got_rst(ECONNRESET); return; }
      peer->rcv.append(snd, 0, k); snd.erase(0, k); wake_all(wq); wake_all(peer->wq);
      if(peer->shut_rd) peer->rcv.clear();
    }
    if(snd.empty() && fin_queued){ if(!peer->fin_rcvd){ peer->fin_rcvd = true; wake_all(peer->wq); } return; }
    pump();
  }
  void got_rst(int e){ if(rst) return; rst = true; soerr = e; snd.clear(); wake_all(wq); }
  void on_close() override {
    closed = true; if(st == CONNECTING) st = NEW;
    if(st == LISTEN){ st = DEAD; for(auto c : backlog){ c->got_rst(0); if(c->peer){ Tcp *q = c->peer; q->got_rst(ECONNRESET);} } auto &v = all(); v.erase(std::remove(v.begin(), v.end(), this), v.end()); wake_all(wq); return; }
    if(st == CONN && !rst && peer){
      if(!rcv.empty() && !partitioned(lip,rip)){ rcv.clear(); Tcp *q = peer; at(g_now + N.tcp_min, [q]{ q->got_rst(ECONNRESET); }); rst = true; fault_fired("tcp_rst_on_close"); }
      else { fin_queued = true; pump(); }
    }
    auto &v = all(); if(st != CONN) v.erase(std::remove(v.begin(), v.end(), this), v.end());
  }
  i64 read(void *b, size_t n, bool nb) override {
    if(st == NEW || st == LISTEN){ errno = ENOTCONN; return -1; }
    for(;;){
      if(!rcv.empty()) break;
      if(rst){ if(soerr){ errno = soerr; soerr = 0; return -1; } return 0; }
      if(fin_rcvd || shut_rd) return 0;
      if(nb){ errno = EAGAIN; return -1; }
      block_on({&wq}, NEVER, true);
    }
    if(n == 0) return 0;
    size_t k = std::min(n, rcv.size());
    if(io_on(cur->proc) && k > 40 && chance(S_IO, cur->proc->io.p_tcp_short)){ k = 1 + draw(S_IO, k); fault_fired("short_read"); }
    memcpy(b, rcv.data(), k); rcv.erase(0, k); if(peer) peer->pump(); return k;
  }
  i64 write(const void *b, size_t n, bool nb) override {
    if(st != CONN){ if(st==NEW){ PipeEnd::signal_sigpipe(); errno = EPIPE; return -1; } errno = ENOTCONN; return -1; }
    size_t done = 0;
    for(;;){
      if(rst){ if(done) return done; if(soerr){ int e = soerr; soerr = 0; errno = e; if(e != ECONNRESET) return -1; return -1; } PipeEnd::signal_sigpipe(); errno = EPIPE; return -1; }
      if(fin_queued){ PipeEnd::signal_sigpipe(); errno = EPIPE; return -1; }
      size_t room = sndcap - std::min(sndcap, snd.size());
      if(room){
        size_t k = std::min(room, n-done);
        if(nb && io_on(cur->proc) && k > 1 && chance(S_IO, cur->proc->io.p_tcp_short)){ k = 1 + draw(S_IO, k); fault_fired("short_write"); }
        snd.append((const char*)b+done, k); done += k; sent_total += k; pump(); if(done == n || nb) return done; continue; }
      if(nb){ if(done) return done; errno = EAGAIN; return -1; }
      block_on({&wq}, NEVER, true);
    }
  }
};
void net_partition(u32 a, u32 b, bool on){
  tr("partition %s %s %d", ipstr(a).c_str(), ipstr(b).c_str(), on);
  if(on){ parts.insert({a,b}); fault_fired("partition"); } else { parts.erase({a,b}); parts.erase({b,a}); for(auto t : Tcp::all()) { t->pump(); if(t->peer) t->peer->pump(); } }
}
void tcp_reset_all(u32 a, u32 b){ for(auto t : std::vector<Tcp*>(Tcp::all())) if(t->st == Tcp::CONN && t->peer && !t->rst && ((t->lip==a && (b==0||t->rip==b)) || (t->rip==a && (b==0||t->lip==b)))){ t->got_rst(ECONNRESET); t->peer->got_rst(ECONNRESET); fault_fired("tcp_rst"); } }
u64 net_bytes_between(u32 a, u32 b){ u64 n=0; for(auto t : Tcp::all()) if(t->lip==a && t->rip==b) n += t->sent_total; return n; }
int tcp_conns(u32 ip){ int n=0; for(auto t : Tcp::all()) if(t->st==Tcp::CONN && t->lip==ip && !t->closed) n++; return n; }
bool tcp_fin_pending(Proc *p, int fd){ Tcp *t = dynamic_cast<Tcp*>(fd_get(p, fd)); return t && (t->fin_rcvd || t->rst || (t->peer && t->peer->closed)); }
void fd_set_cap(Proc *p, int fd, size_t rcv, size_t snd){ Tcp *t = dynamic_cast<Tcp*>(fd_get(p, fd)); if(t){ if(rcv) t->rcvcap = rcv; if(snd) t->sndcap = snd; } }
static u16 next_port = 32768;

// ---------------------------------------------------------------- libc surface
static u64 cost_io(size_t n){ return 2*US + n/1000*US; }
bool fd_full(Proc *p, int need){ int fd = 3, k = 0; for(; fd < p->fd_limit && k < need; fd++) if(!p->fds.count(fd)) k++; return k < need; }
static int open_fail(Proc *p, int flags){
  if(fd_full(p, 1)){ fault_fired("fd_limit"); return EMFILE; }
  if(nth_fail(p, FC_OPEN, "open")) return flags & O_CREAT ? ENOSPC : EMFILE;
  if(!io_on(p)) return 0;
  if(chance(S_IO, p->io.p_open_fail)){ int e = (flags & O_CREAT) ? (draw(S_IO,3) == 1 ? ENOSPC : EMFILE) : EMFILE; fault_fired(e == EMFILE ? "open_emfile" : "open_enospc"); return e; }
  return 0;
}
extern "C" {
int sim_open(const char *path, int flags, ...){
  mode_t mode = 0; if(flags & O_CREAT){ va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  Proc *p = enter("open", 5*US); cancel_point();
  tr("open %s flags=%x", path, flags);
  bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT|O_TRUNC));
  if(!strcmp(path, "/dev/null")){ return fd_add(p, new NullDev); }
  if(escape(p, path, wr)){ errno = wr ? EACCES : ENOENT; return -1; }
  int e = open_fail(p, flags); if(e){ errno = e; return -1; }
  if(g_open_hook) g_open_hook(p, path, flags);
  struct stat st;
  if(stat(path, &st) == 0 && S_ISFIFO(st.st_mode)){
    if((flags & O_CREAT) && (flags & O_EXCL)){ errno = EEXIST; return -1; }
    Chan *&c = fifos[{st.st_dev, st.st_ino}]; if(!c) c = new Chan;
    Chan *ch = c; int acc = flags & O_ACCMODE; bool r = acc != O_WRONLY, w = acc != O_RDONLY; bool nb = flags & O_NONBLOCK;
    if(acc == O_WRONLY && nb && ch->readers == 0){ errno = ENXIO; return -1; }
    PipeEnd *pe = new PipeEnd(ch, r, w); pe->nb = nb; pe->oflags = flags; pe->path = path;
    int fd = fd_add(p, pe); if(fd < 0){ pe->on_close(); errno = EMFILE; return -1; }
    if(!nb && acc == O_RDONLY){ u64 v0 = ch->wver; while(ch->writers == 0 && ch->wver == v0){ block_on({&ch->q}, NEVER, true); } pe->wver0 = ch->wver - 1; }
    if(!nb && acc == O_WRONLY) while(ch->readers == 0) block_on({&ch->q}, NEVER, true);
    return fd;
  }
  stall(p);
  int rfd = open(path, flags | O_CLOEXEC, mode); if(rfd < 0){ tr("open: errno %d", errno); return -1; }
  RegFile *f = new RegFile(rfd); f->oflags = flags; f->path = path; int fd = fd_add(p, f); if(fd < 0){ close(rfd); errno = EMFILE; return -1; }
  return fd;
}
void proc_stdin(Proc *p, const std::string& path){ int rfd = open(path.c_str(), O_RDONLY|O_CLOEXEC); if(rfd < 0) return; RegFile *f = new RegFile(rfd); f->path = path; f->refs++; p->fds[0] = f; }
ssize_t sim_getline(char **l, size_t *n, FILE *f){        // standard input is descriptor 0 of the simulated program
  if(f != stdin) return getline(l, n, f); std::string s; char c; for(;;){ ssize_t k = sim_read(0, &c, 1); if(k <= 0) break; s += c; if(c == '\n') break; } if(s.empty()) return -1;
  if(!*l || *n < s.size() + 1){ *n = s.size() + 120; *l = (char*)realloc(*l, *n); } memcpy(*l, s.c_str(), s.size() + 1); return s.size();
}
int sim_creat(const char *path, mode_t m){ return sim_open(path, O_WRONLY|O_CREAT|O_TRUNC, m); }
int sim_close(int fd){
  Proc *p = enter("close"); cancel_point(); FileObj *o = fd_get(p, fd); if(!o){ if(p->node){ probe("close_ebadf"); tr("close(%d) EBADF", fd); } errno = EBADF; return -1; }
  tr("close %d %s", fd, o->path.c_str());
  if(!o->path.empty() && (o->oflags & O_ACCMODE) != O_RDONLY && g_fs_hook) g_fs_hook(p, "close", o->path);
  p->fds.erase(fd); file_unref(o); return 0;
}
ssize_t sim_read(int fd, void *b, size_t n){
  Proc *p = enter("read", cost_io(0)); FileObj *o = fd_get(p, fd); if(!o){ errno = EBADF; return -1; }
  cancel_point();
  RegFile *rf = dynamic_cast<RegFile*>(o);
  if(rf){ stall(p); if(io_on(p)){ if(chance(S_IO, p->io.p_eio/4)){ fault_fired("read_eio"); errno = EIO; return -1; } if(n > 1 && chance(S_IO, p->io.p_short_read)){ n = 1 + draw(S_IO, n); fault_fired("short_read"); } } }
  o->refs++; cur->held = o; i64 r = o->read(b, n, o->nb); int e = errno; cur->held = nullptr; file_unref(o); errno = e; hash_ev(0x1d, r); tr("read %d -> %lld", fd, (long long)r); return r;
}
static i64 reg_write(Proc *p, FileObj *o, const void *b, size_t n){
  if(nth_fail(p, FC_WRITE, "write")){ errno = ENOSPC; return -1; }
  if(io_on(p)){
    if(p->io.disk_full){ fault_fired("disk_full_write"); size_t k = n > 1 && draw(S_IO, 3) == 2 ? draw(S_IO, n) : 0; if(k){ return o->write(b, k, false);} errno = ENOSPC; return -1; }
    if(chance(S_IO, p->io.p_enospc)){ fault_fired("write_enospc"); errno = ENOSPC; return -1; }
    if(chance(S_IO, p->io.p_eio)){ fault_fired("write_eio"); errno = EIO; return -1; }
    if(n > 1 && chance(S_IO, p->io.p_short_write)){ n = 1 + draw(S_IO, n); fault_fired("short_write_file"); }
  }
  if(n >= 64 && !cur->nopreempt && p->node && K.p_switch > 0){ // a write is not atomic: another task or a crash may fall in the middle
    if(chance(S_SCHED, K.p_switch/2)){ size_t k = 1 + draw(S_SCHED, n-1); if(k < n){ i64 r = o->write(b, k, false); if(r != (i64)k) return r; enter("write-mid"); i64 r2 = o->write((const char*)b + k, n-k, false); return r2 < 0 ? r : r + r2; } }
  }
  return o->write(b, n, false);
}
ssize_t sim_write(int fd, const void *b, size_t n){
  // what the database prints about itself (addresses, hash chains) is not the same in two executions: neither stored nor traced
  if(FileObj *m = fd_get(cur->proc, fd)) if(m->path.find("dbstats") != std::string::npos) return n;
  Proc *p = enter("write", cost_io(n)); FileObj *o = fd_get(p, fd); if(!o){ errno = EBADF; return -1; }
  cancel_point();
  o->refs++; cur->held = o; i64 r;
  if(dynamic_cast<RegFile*>(o)){ stall(p); r = reg_write(p, o, b, n); } else r = o->write(b, n, o->nb);
  int e = errno; if(g_wr_hook && r > 0){ if(dynamic_cast<PipeEnd*>(o)) g_wr_hook(p, 1, 0, o->label, (const char*)b, r); else if(auto t = dynamic_cast<Tcp*>(o)) g_wr_hook(p, 2, t->rip, o->label, (const char*)b, r); } cur->held = nullptr; file_unref(o); errno = e; hash_ev(0x3d, r); if(r > 0 && r <= (i64)n) hash_ev(0x3e, fnv(b, std::min<size_t>(r, 512))); tr("write %d %zu -> %lld", fd, n, (long long)r); return r;
}
ssize_t sim_send(int fd, const void *b, size_t n, int fl){
  if(fl & MSG_DONTWAIT){ Proc *p = enter("send"); FileObj *o = fd_get(p, fd); if(!o){ errno=EBADF; return -1;} i64 r = o->write(b,n,true); return r; }
  return sim_write(fd, b, n); }
ssize_t sim_recv(int fd, void *b, size_t n, int fl){
  if(fl & (MSG_DONTWAIT|MSG_PEEK)){ Proc *p = enter("recv"); FileObj *o = fd_get(p, fd); if(!o){ errno=EBADF; return -1;}
    Tcp *t = dynamic_cast<Tcp*>(o); if(t && (fl & MSG_PEEK) && !t->rcv.empty()){ size_t k = std::min(n, t->rcv.size()); memcpy(b, t->rcv.data(), k); return k; }
    return o->read(b,n,o->nb || (fl & MSG_DONTWAIT)); }
  return sim_read(fd, b, n); }
ssize_t sim_readv(int fd, const struct iovec *v, int c){ ssize_t t = 0; for(int i=0;i<c;i++){ ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if(r < 0) return t ? t : -1; t += r; if(r < (ssize_t)v[i].iov_len) break; } return t; }
ssize_t sim_writev(int fd, const struct iovec *v, int c){ std::string s; for(int i=0;i<c;i++) s.append((const char*)v[i].iov_base, v[i].iov_len); return sim_write(fd, s.data(), s.size()); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t off){ Proc *p = enter("pread"); RegFile *f = dynamic_cast<RegFile*>(fd_get(p, fd)); if(!f){ errno = EBADF; return -1; } if(io_on(p) && n > 1 && chance(S_IO, p->io.p_short_read)){ n = 1 + draw(S_IO, n); fault_fired("short_read"); } return pread(f->rfd, b, n, off); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t off){ Proc *p = enter("pwrite"); RegFile *f = dynamic_cast<RegFile*>(fd_get(p, fd)); if(!f){ errno = EBADF; return -1; } return pwrite(f->rfd, b, n, off); }
off_t sim_lseek(int fd, off_t o, int w){ Proc *p = enter("lseek"); RegFile *f = dynamic_cast<RegFile*>(fd_get(p, fd)); if(!f){ errno = ESPIPE; return -1; } return lseek(f->rfd, o, w); }
int sim_ftruncate(int fd, off_t o){ Proc *p = enter("ftruncate"); RegFile *f = dynamic_cast<RegFile*>(fd_get(p, fd)); if(!f){ errno = EBADF; return -1; } return ftruncate(f->rfd, o); }
int sim_truncate(const char *path, off_t o){ Proc *p = enter("truncate"); if(escape(p, path, true)){ errno=EACCES; return -1; } return truncate(path, o); }
int sim_fsync(int fd){ enter("fsync", 100*US); return 0; }
int sim_fdatasync(int fd){ return sim_fsync(fd); }
struct FLock { Proc *owner; FileObj *of; int sh = 0; }; 
static std::map<std::pair<u64,u64>, std::pair<std::set<FileObj*>, bool>> flocks; static WaitQ flockq;
static bool id_of(FileObj *o, std::pair<u64,u64>& k){
  struct stat st; if(auto r = dynamic_cast<RegFile*>(o)) fstat(r->rfd, &st); else if(auto q = dynamic_cast<PipeEnd*>(o)){ k = {~0ull, (u64)q->c}; return true; } else return false; k = {st.st_dev, st.st_ino}; return true; }
int sim_flock(int fd, int op){
  Proc *p = enter("flock"); FileObj *o = fd_get(p, fd); if(!o){ errno = EBADF; return -1; } std::pair<u64,u64> k; if(!id_of(o, k)){ errno = EBADF; return -1; }
  // lazily drop locks of closed files
  for(;;){
    auto &l = flocks[k]; for(auto it = l.first.begin(); it != l.first.end();) if((*it)->refs == 0) it = l.first.erase(it); else ++it;
    if((op & 7) == LOCK_UN || (op & LOCK_UN)){ l.first.erase(o); wake_all(flockq); return 0; }
    l.first.erase(o);
    if((op & LOCK_SH) ? (l.first.empty() || !l.second) : l.first.empty()){ l.first.insert(o); l.second = !(op & LOCK_SH); return 0; }
    if(op & LOCK_NB){ errno = EWOULDBLOCK; return -1; }
    probe("flock_contended"); block_on({&flockq}, g_now + 1*MS, true);
  }
}
int sim_lockf(int fd, int cmd, off_t len){ return sim_flock(fd, cmd == F_ULOCK ? LOCK_UN : cmd == F_LOCK ? LOCK_EX : LOCK_EX|LOCK_NB); }
int sim_fcntl(int fd, int cmd, ...){
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  Proc *p = enter("fcntl"); FileObj *o = fd_get(p, fd); if(!o){ errno = EBADF; return -1; }
  switch(cmd){
  case F_GETFL: return (o->oflags & O_ACCMODE) | (o->nb ? O_NONBLOCK : 0) | (o->oflags & O_APPEND);
  case F_SETFL: o->nb = arg & O_NONBLOCK; return 0;
  case F_GETFD: return o->cloexec ? FD_CLOEXEC : 0;
  case F_SETFD: o->cloexec = arg & FD_CLOEXEC; return 0;
  case F_DUPFD: case F_DUPFD_CLOEXEC: return fd_add(p, o, arg);
  default: return 0;
  }
}
int sim_dup(int fd){ Proc *p = enter("dup"); FileObj *o = fd_get(p, fd); if(!o){ errno = EBADF; return -1; } int r = fd_add(p, o, 0); if(r < 0) errno = EMFILE; return r; }
int sim_dup2(int a, int b){ Proc *p = enter("dup2"); FileObj *o = fd_get(p, a); if(!o){ errno = EBADF; return -1; } if(a==b) return b; FileObj *x = fd_get(p, b); o->refs++; if(x){ p->fds.erase(b); file_unref(x); } p->fds[b] = o; return b; }
int sim_pipe(int *v){ Proc *p = enter("pipe"); if(fd_full(p, 2)){ fault_fired("fd_limit"); errno = EMFILE; return -1; } sim_pipe_pair(p, &v[0], p, &v[1], 65536); return 0; }
int sim_poll(struct pollfd *pf, unsigned long n, int tmo){
  Proc *p = enter("poll"); u64 d = tmo < 0 ? NEVER : g_now + (u64)tmo*MS;
  for(;;){
    int k = 0; std::vector<WaitQ*> qs;
    for(unsigned long i=0;i<n;i++){ pf[i].revents = 0; if(pf[i].fd < 0) continue; FileObj *o = fd_get(p, pf[i].fd); if(!o){ pf[i].revents = POLLNVAL; k++; if(p->node) probe("poll_nval"); continue; }
      short m = o->pollmask() & (pf[i].events | POLLERR | POLLHUP); if(m & POLLIN) m |= pf[i].events & POLLRDNORM; if(m){ pf[i].revents = m; k++; } else o->waitqs(qs); }
    if(k || tmo == 0){ cancel_point(); hash_ev(0x9011, k); return k; }
    cur->where = "poll"; if(g_now >= d || (!block_on(qs, d, true) && g_now >= d)){ 
      // re-check once at the deadline
      k = 0; for(unsigned long i=0;i<n;i++){ if(pf[i].fd < 0) continue; FileObj *o = fd_get(p, pf[i].fd); if(!o) continue; short m = o->pollmask() & (pf[i].events | POLLERR | POLLHUP); if(m){ pf[i].revents = m; k++; } }
      hash_ev(0x9011, k); return k; }
  }
}
int sim_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv){
  std::vector<struct pollfd> v; for(int i=0;i<nfds;i++){ short ev = 0; if(r && FD_ISSET(i,r)) ev |= POLLIN; if(w && FD_ISSET(i,w)) ev |= POLLOUT; if(e && FD_ISSET(i,e)) ev |= POLLPRI; if(ev) v.push_back({i,ev,0}); }
  int tmo = tv ? (int)(tv->tv_sec*1000 + (tv->tv_usec+999)/1000) : -1; int k = sim_poll(v.data(), v.size(), tmo);
  if(k < 0) return k; int c = 0; if(r) FD_ZERO(r); if(w) FD_ZERO(w); if(e) FD_ZERO(e);
  for(auto &x : v){ if(x.revents & POLLNVAL){ errno = EBADF; return -1; } if(r && (x.events & POLLIN) && (x.revents & (POLLIN|POLLHUP|POLLERR))){ FD_SET(x.fd, r); c++; } if(w && (x.events & POLLOUT) && (x.revents & (POLLOUT|POLLERR))){ FD_SET(x.fd, w); c++; } }
  return c;
}
int sim_ppoll(struct pollfd *pf, unsigned long n, const struct timespec *ts, const void*){ return sim_poll(pf, n, ts ? (int)(ts->tv_sec*1000 + (ts->tv_nsec+999999)/1000000) : -1); }
// sockets
int sim_socket(int dom, int type, int proto){
  Proc *p = enter("socket"); if(dom != AF_INET){ errno = EAFNOSUPPORT; return -1; }
  int e = open_fail(p, 0); if(e){ errno = e; return -1; }
  FileObj *o; if((type & 0xf) == SOCK_DGRAM){ auto u = new Udp; u->p = p; Udp::socks().push_back(u); o = u; } else { auto t = new Tcp; t->p = p; o = t; }
  o->oflags = O_RDWR; if(type & SOCK_NONBLOCK) o->nb = true; int fd = fd_add(p, o); if(fd < 0){ o->on_close(); errno = EMFILE; } return fd;
}
static void get_in(const struct sockaddr *sa, u32& ip, u16& port){ auto in = (const struct sockaddr_in*)sa; ip = ntohl(in->sin_addr.s_addr); port = ntohs(in->sin_port); }
static void put_in(struct sockaddr *sa, socklen_t *sl, u32 ip, u16 port){ if(!sa||!sl) return; struct sockaddr_in in; memset(&in,0,sizeof in); in.sin_family=AF_INET; in.sin_port=htons(port); in.sin_addr.s_addr=htonl(ip); memcpy(sa,&in,std::min<size_t>(*sl,sizeof in)); *sl=sizeof in; }
int sim_bind(int fd, const struct sockaddr *sa, socklen_t){
  Proc *p = enter("bind"); if(nth_fail(p, FC_SOCK, "bind")){ errno = EADDRINUSE; return -1; } FileObj *o = fd_get(p, fd); u32 ip; u16 port; get_in(sa, ip, port);
  if(auto u = dynamic_cast<Udp*>(o)){ u->addr = ip; u->port = port; return 0; }
  if(auto t = dynamic_cast<Tcp*>(o)){ for(auto x : Tcp::all()) if(x->st == Tcp::LISTEN && x->lip == p->ip && x->lport == port){ errno = EADDRINUSE; return -1; } t->lip = p->ip; t->lport = port; return 0; }
  errno = EBADF; return -1;
}
int sim_listen(int fd, int bl){ Proc *p = enter("listen"); if(nth_fail(p, FC_SOCK, "listen")){ errno = EADDRINUSE; return -1; } auto t = dynamic_cast<Tcp*>(fd_get(p, fd)); if(!t){ errno = EBADF; return -1; } t->st = Tcp::LISTEN; t->backlog_max = std::max(1, bl) + 1; Tcp::all().push_back(t); return 0; }
int sim_accept(int fd, struct sockaddr *sa, socklen_t *sl){
  Proc *p = enter("accept", 5*US); auto t = dynamic_cast<Tcp*>(fd_get(p, fd)); if(!t){ errno = EBADF; return -1; } if(t->st != Tcp::LISTEN){ errno = EINVAL; return -1; }
  while(t->backlog.empty()){ if(t->nb){ errno = EAGAIN; return -1; } block_on({&t->wq}, NEVER, true); if(t->st != Tcp::LISTEN){ errno = EINVAL; return -1; } }
  if(io_on(p) && chance(S_IO, p->io.p_sock)){ Tcp *c = t->backlog.front(); t->backlog.pop_front(); c->got_rst(0); c->peer->got_rst(ECONNRESET); fault_fired("accept_aborted"); errno = ECONNABORTED; return -1; }
  int e = open_fail(p, 0); if(e){ errno = e; return -1; }
  Tcp *c = t->backlog.front(); t->backlog.pop_front(); put_in(sa, sl, c->rip, c->rport); c->oflags = O_RDWR; c->p = p; int nfd = fd_add(p, c); if(nfd < 0){ errno = EMFILE; } tr("accept -> %d from %s", nfd, ipstr(c->rip).c_str()); return nfd;
}
int sim_accept4(int fd, struct sockaddr *sa, socklen_t *sl, int fl){ int r = sim_accept(fd, sa, sl); if(r >= 0 && (fl & SOCK_NONBLOCK)) fd_get(cur->proc, r)->nb = true; return r; }
static void syn(Tcp *t);
static void syn(Tcp *t){
  if(t->st != Tcp::CONNECTING) return;
  if(partitioned(t->lip, t->rip)){ at(g_now + 3*SEC, [t]{ syn(t); }); return; }
  Tcp *l = nullptr; for(auto x : Tcp::all()) if(x->st == Tcp::LISTEN && x->lip == t->rip && x->lport == t->rport && x->p->alive) l = x;
  if(!l){ t->st = Tcp::NEW; t->soerr = ECONNREFUSED; wake_all(t->wq); return; }
  if((int)l->backlog.size() >= l->backlog_max){ at(g_now + 1*SEC, [t]{ syn(t); }); probe("backlog_full"); return; }
  Tcp *s = new Tcp; s->p = l->p; s->st = Tcp::CONN; s->lip = t->rip; s->lport = t->rport; s->rip = t->lip; s->rport = t->lport; s->peer = t; t->peer = s; s->sndcap = l->sndcap; s->rcvcap = l->rcvcap; t->st = Tcp::CONN; Tcp::all().push_back(s); Tcp::all().push_back(t);
  l->backlog.push_back(s); wake_all(l->wq); wake_all(t->wq);
}
int sim_connect(int fd, const struct sockaddr *sa, socklen_t){
  Proc *p = enter("connect"); FileObj *o = fd_get(p, fd); u32 ip; u16 port; get_in(sa, ip, port);
  if(auto u = dynamic_cast<Udp*>(o)){ u->dstip = ip; u->dstport = port; return 0; }
  auto t = dynamic_cast<Tcp*>(o); if(!t){ errno = EBADF; return -1; } if(t->st == Tcp::CONN){ errno = EISCONN; return -1; } if(t->st == Tcp::CONNECTING){ errno = EALREADY; return -1; }
  if(ip == 0x7f000001 || ip == 0) ip = p->ip;
  t->lip = p->ip; t->lport = ++next_port; t->rip = ip; t->rport = port; t->st = Tcp::CONNECTING; t->soerr = 0; 
  at(g_now + t->lat(), [t]{ syn(t); }); at(g_now + 127*SEC, [t]{ if(t->st == Tcp::CONNECTING){ t->st = Tcp::NEW; t->soerr = ETIMEDOUT; wake_all(t->wq); } });
  if(t->nb){ errno = EINPROGRESS; return -1; }
  while(t->st == Tcp::CONNECTING) block_on({&t->wq}, NEVER, true);
  if(t->st != Tcp::CONN){ errno = t->soerr; t->soerr = 0; return -1; } return 0;
}
int sim_shutdown(int fd, int how){ Proc *p = enter("shutdown"); auto t = dynamic_cast<Tcp*>(fd_get(p, fd)); if(!t || t->st != Tcp::CONN){ errno = ENOTCONN; return -1; } if(how != SHUT_RD){ t->fin_queued = true; t->pump(); } if(how != SHUT_WR){ t->shut_rd = true; wake_all(t->wq);} return 0; }
int sim_setsockopt(int fd, int lev, int opt, const void *v, socklen_t l){
  Proc *p = enter("setsockopt"); FileObj *o = fd_get(p, fd); if(!o){ errno = EBADF; return -1; }
  int iv = l >= 4 ? *(const int*)v : 0;
  if(lev == SOL_SOCKET && (opt == SO_RCVBUF || opt == SO_SNDBUF)){ size_t b = std::max(4608, std::min(iv, 4<<20)*2); if(auto u = dynamic_cast<Udp*>(o)){ if(opt == SO_RCVBUF) u->cap = b; } else if(auto t = dynamic_cast<Tcp*>(o)){ (opt == SO_RCVBUF ? t->rcvcap : t->sndcap) = b; } return 0; }
  if(lev == IPPROTO_IP && opt == IP_ADD_MEMBERSHIP){ if(nth_fail(p, FC_SOCK, "join")){ errno = ENOBUFS; return -1; } auto u = dynamic_cast<Udp*>(o); if(u) u->groups.insert(ntohl(((const struct ip_mreq*)v)->imr_multiaddr.s_addr)); return 0; }
  if(lev == IPPROTO_IP && opt == IP_DROP_MEMBERSHIP){ auto u = dynamic_cast<Udp*>(o); if(u) u->groups.erase(ntohl(((const struct ip_mreq*)v)->imr_multiaddr.s_addr)); return 0; }
  return 0;
}
int sim_getsockopt(int fd, int lev, int opt, void *v, socklen_t *l){
  Proc *p = enter("getsockopt"); FileObj *o = fd_get(p, fd); if(!o){ errno = EBADF; return -1; } int r = 0; auto t = dynamic_cast<Tcp*>(o);
  if(opt == SO_ERROR && t){ r = t->soerr; t->soerr = 0; } else if(opt == SO_SNDBUF && t) r = t->sndcap; else if(opt == SO_RCVBUF && t) r = t->rcvcap; else if(opt == SO_TYPE) r = t ? SOCK_STREAM : SOCK_DGRAM;
  memcpy(v, &r, std::min<size_t>(*l, 4)); return 0;
}
int sim_getpeername(int fd, struct sockaddr *sa, socklen_t *sl){ Proc *p = enter("getpeername"); auto t = dynamic_cast<Tcp*>(fd_get(p, fd)); if(!t){ errno = ENOTSOCK; return -1; } if(t->st != Tcp::CONN || t->rst){ errno = ENOTCONN; return -1; } put_in(sa, sl, t->rip, t->rport); return 0; }
int sim_getsockname(int fd, struct sockaddr *sa, socklen_t *sl){ Proc *p = enter("getsockname"); auto t = dynamic_cast<Tcp*>(fd_get(p, fd)); put_in(sa, sl, p->ip, t ? t->lport : 0); return 0; }
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *sa, socklen_t *sl){
  Proc *p = enter("recvfrom", 2*US); FileObj *o = fd_get(p, fd); auto u = dynamic_cast<Udp*>(o); if(!u){ if(o) return sim_recv(fd, b, n, fl); errno = EBADF; return -1; } i64 r = u->recv(b, n, u->nb || (fl & MSG_DONTWAIT), sa, sl); hash_ev(0x4ec, r); tr("recvfrom %d -> %lld", fd, (long long)r); return r; }
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *sa, socklen_t){
  Proc *p = enter("sendto", 3*US); FileObj *o = fd_get(p, fd); auto u = dynamic_cast<Udp*>(o); if(!u){ if(o) return o->write(b,n,o->nb); errno = EBADF; return -1; }
  u32 ip = u->dstip; u16 port = u->dstport; if(sa) get_in(sa, ip, port); if(n > 65507){ errno = EMSGSIZE; return -1; }
  if(io_on(p) && chance(S_IO, p->io.p_sock)){ fault_fired("sendto_enobufs"); errno = ENOBUFS; return -1; }
  udp_inject(p->ip, ip, port, std::string((const char*)b, n)); hash_ev(0x5e4d, n); tr("sendto %zu", n); return n; }
int sim_ioctl(int fd, unsigned long req, ...){ 
  va_list ap; va_start(ap, req); void *arg = va_arg(ap, void*); va_end(ap); Proc *p = enter("ioctl"); FileObj *o = fd_get(p, fd);
  if(req == FIONREAD && o){ auto t = dynamic_cast<Tcp*>(o); auto pe = dynamic_cast<PipeEnd*>(o); *(int*)arg = t ? t->rcv.size() : pe ? pe->c->buf.size() : 0; return 0; }
  if(req == FIONBIO && o){ o->nb = *(int*)arg; return 0; } return 0; }
// filesystem
int sim_mkfifo(const char *path, mode_t m){ Proc *p = enter("mkfifo"); if(escape(p, path, true)){ errno = EACCES; return -1; } if(nth_fail(p, FC_OPEN, "mkfifo")){ errno = ENOSPC; return -1; } return mkfifo(path, m); }
int sim_mkdir(const char *path, mode_t m){ Proc *p = enter("mkdir"); tr("mkdir %s", path); if(escape(p, path, true)){ errno = EACCES; return -1; } if(io_on(p)){ if(p->io.disk_full || chance(S_IO, p->io.p_enospc)){ struct stat st; if(stat(path,&st)!=0){ fault_fired("mkdir_enospc"); errno = ENOSPC; return -1; } } } return mkdir(path, m | 0700); }
int sim_rmdir(const char *path){ Proc *p = enter("rmdir"); if(escape(p, path, true)){ errno = EACCES; return -1; } return rmdir(path); }
int sim_unlink(const char *path){ Proc *p = enter("unlink"); tr("unlink %s", path); if(escape(p, path, true)){ errno = EACCES; return -1; } int r = unlink(path); if(r == 0 && g_fs_hook) g_fs_hook(p, "unlink", path); return r; }
int sim_remove(const char *path){ Proc *p = enter("remove"); if(escape(p, path, true)){ errno = EACCES; return -1; } int r = remove(path); if(r == 0 && g_fs_hook) g_fs_hook(p, "unlink", path); return r; }
int sim_rename(const char *a, const char *b){ Proc *p = enter("rename"); tr("rename %s %s", a, b); if(escape(p, a, true) || escape(p, b, true)){ errno = EACCES; return -1; } int r = rename(a, b); if(r == 0 && g_fs_hook) g_fs_hook(p, "rename", b); return r; }
int sim_link(const char *a, const char *b){ Proc *p = enter("link"); if(escape(p, a, true) || escape(p, b, true)){ errno = EACCES; return -1; } return link(a, b); }
int sim_symlink(const char *a, const char *b){ Proc *p = enter("symlink"); if(escape(p, b, true)){ errno = EACCES; return -1; } return symlink(a, b); }
int sim_stat(const char *path, struct stat *st){ Proc *p = enter("stat"); if(escape(p, path, false)){ errno = ENOENT; return -1; } return stat(path, st); }
int sim_lstat(const char *path, struct stat *st){ Proc *p = enter("lstat"); if(escape(p, path, false)){ errno = ENOENT; return -1; } return lstat(path, st); }
int sim_fstat(int fd, struct stat *st){ Proc *p = enter("fstat"); FileObj *o = fd_get(p, fd); if(!o){ errno = EBADF; return -1; } if(auto f = dynamic_cast<RegFile*>(o)) return fstat(f->rfd, st); if(!o->path.empty()) return stat(o->path.c_str(), st); memset(st, 0, sizeof *st); st->st_mode = S_IFIFO|0600; return 0; }
int sim_access(const char *path, int m){ Proc *p = enter("access"); if(escape(p, path, false)){ errno = ENOENT; return -1; } return access(path, m); }
int sim_chmod(const char *path, mode_t m){ Proc *p = enter("chmod"); if(escape(p, path, true)){ errno = EACCES; return -1; } return 0; }
int sim_chown(const char *path, uid_t, gid_t){ Proc *p = enter("chown"); if(escape(p, path, true)){ errno = EACCES; return -1; } return 0; }
int sim_chdir(const char *path){ enter("chdir"); return 0; }
DIR *sim_opendir(const char *path){ Proc *p = enter("opendir"); if(fd_full(p, 1)){ fault_fired("fd_limit"); errno = EMFILE; return nullptr; } if(escape(p, path, false)){ errno = ENOENT; return nullptr; } DIR *d = opendir(path); if(d) p->dirs++; return d; }
struct dirent *sim_readdir(DIR *d){ Proc *p = enter("readdir"); struct dirent *e = readdir(d); if(e && g_readdir_hook) g_readdir_hook(p, e->d_name); return e; }
int sim_closedir(DIR *d){ Proc *p = enter("closedir"); p->dirs--; return closedir(d); }
}
size_t open_fds(Proc *p){ return p->fds.size(); }
std::string fd_listing(Proc *p){ std::string s; for(auto &k : p->fds){ const char *t = dynamic_cast<Tcp*>(k.second) ? "tcp" : dynamic_cast<Udp*>(k.second) ? "udp" : dynamic_cast<PipeEnd*>(k.second) ? "fifo" : "file"; s += strf("%d:%s:%s ", k.first, t, k.second->path.c_str()); } return s; }
int real_fd_of(FileObj *o){ auto r = dynamic_cast<RegFile*>(o); return r ? r->rfd : -1; }
