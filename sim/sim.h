// Deterministic simulator core for nbspd: fibers, virtual time, seeded choices.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <errno.h>
#include <string.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <deque>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;
static const u64 NEVER = ~0ull;
static const u64 US = 1000ull, MS = 1000000ull, SEC = 1000000000ull;

// ---------------------------------------------------------------- choices
// Every nondeterministic decision is one draw from a named stream. Value 0 is
// always the default (no fault, FIFO order, simplest configuration). A run is
// recorded as the sparse list of (stream,index,value) with value != 0, and a
// replay feeds that list back, reading 0 wherever the list has no entry.
enum Stream { S_PLAN, S_SCHED, S_PREEMPT, S_NET, S_IO, S_MEM, S_FAULT, S_DATA, NSTREAMS };
extern const char *stream_names[NSTREAMS];
u64 draw(Stream s, u64 n);                    // uniform [0,n)
bool chance(Stream s, double p);              // true with probability p (p==0: no draw)
u64 draw_range(Stream s, u64 lo, u64 hi);     // uniform [lo,hi], 0-offset draw
template<class T> const T& pick(Stream s, const std::vector<T>& v){ return v[draw(s, v.size())]; }

// ---------------------------------------------------------------- reporting
void violation(const char *prop_class, const char *fmt, ...) __attribute__((format(printf,2,3)));
extern bool g_violated;
void probe(const char *name, u64 n = 1);      // "this rare condition was hit"
void fault_fired(const char *kind, u64 n = 1);
void tr(const char *fmt, ...) __attribute__((format(printf,1,2)));   // trace line (verbose only) 
void hash_ev(u64 a, u64 b = 0);               // feed run hash
void state_mark(u64 h);                       // abstract state reached (distinct-state measure)
extern bool g_verbose;
[[noreturn]] void finish_run(const char *how);

// ---------------------------------------------------------------- time
extern u64 g_now;                             // monotonic virtual ns
u64 at(u64 t, std::function<void()> f);      // timed event; returns id
void at_cancel(u64 id);

// ---------------------------------------------------------------- fibers
struct Proc; struct Fiber;
struct WaitQ { std::vector<Fiber*> w; };
struct Fiber {
  int id; Proc *proc = nullptr; std::string name;
  void *sp = nullptr; char *stk = nullptr; size_t stksz = 0; void *fake = nullptr;
  enum { RUNNABLE, BLOCKED, DONE } st = RUNNABLE;
  std::function<void*()> fn;
  u64 wake = NEVER; bool timedout = false; u64 timer_seq = 0;
  bool rt_deadline = false; i64 rt_abs = 0;   // realtime deadline (ns since epoch, node clock)
  std::vector<WaitQ*> wqs;
  int err = 0; u64 debt = 0;   // time spent waiting inside the database library
  bool cancel_ok = true, cancel_pending = false, cancelling = false, in_cp = false;
  void *cleanup = nullptr;
  bool detached = false; void *ret = nullptr; WaitQ joinq; bool joined = false;
  int nopreempt = 0; u64 edges = 0;
  i64 countdown = 0; bool cd_real = true;
  const char *where = ""; u64 runs = 0;
  u64 sigmask = 0; struct FileObj *held = nullptr;
  // vfork emulation
  void *fork_regs[10]; bool in_child = false; int child_pid = 0; int child_depth = 0;
};
extern Fiber *cur;
Fiber *spawn(Proc *p, const std::string& name, std::function<void*()> fn);
void yield_point(const char *op, u64 cost = 1*US);   // scheduling point
// block on queues until woken / deadline; returns false on timeout
bool block_on(std::initializer_list<WaitQ*> qs, u64 deadline, bool cancelpoint);
bool block_on(const std::vector<WaitQ*>& qs, u64 deadline, bool cancelpoint);
void wake_all(WaitQ& q); void wake_one(WaitQ& q);
void make_runnable(Fiber *f);
void sim_sleep(u64 ns, bool cancelpoint = true);
void cancel_point();
[[noreturn]] void fiber_exit(void *ret);
void kill_fibers(Proc *p, Fiber *except);
void sim_run(std::function<void()> mainfn);
struct NoPreempt { Fiber *f; NoPreempt():f(cur){ if(f) f->nopreempt++; } ~NoPreempt(){ if(f) f->nopreempt--; } };

// ---------------------------------------------------------------- swarm knobs
struct Knobs {
  double p_switch = 0;        // at a sched point: run somebody else
  double p_preempt_on = 0;    // preemption countdown active
  u64 preempt_max = 0;        // basic blocks
  double p_spurious = 0;      // spurious cond wakeups
  double p_mutex_yield = 0;
};
extern Knobs K;
void pick_sched_knobs();

// ---------------------------------------------------------------- processes
struct FileObj { 
  virtual ~FileObj(){} std::string label;
  virtual i64 read(void*, size_t, bool nb){ errno=EBADF; return -1; }
  virtual i64 write(const void*, size_t, bool nb){ errno=EBADF; return -1; }
  virtual short pollmask(){ return 0; }
  virtual void waitqs(std::vector<WaitQ*>&){}
  virtual void on_close(){}
  int refs = 0; bool nb = false; int oflags = 0; std::string path; bool cloexec=false;
};
struct Node;
struct IoFaults {
  bool on = false;
  double p_short_write = 0, p_short_read = 0;   // regular files
  double p_enospc = 0, p_eio = 0;               // writes
  double p_open_fail = 0;                       // EMFILE / ENOSPC on create
  double p_malloc = 0;
  double p_tcp_short = 0;                       // partial TCP/fifo transfers
  double p_thread = 0;                          // pthread_create EAGAIN
  double p_stall = 0; u64 stall_max = 0;        // disk stall
  double p_sock = 0;                            // ECONNABORTED / ENOBUFS ...
  double p_eintr = 0;
  // one fault at a chosen place: of the calls of the chosen classes, number fail_at and the fail_run-1 that follow it fail
  int fail_class = 0; u64 fail_at = 0, fail_run = 1, fail_seen = 0;
  bool disk_full = false;
};
enum { FC_MEM = 1, FC_OPEN = 2, FC_THREAD = 4, FC_SOCK = 8, FC_DB = 16, FC_WRITE = 32 };
bool nth_fail(Proc *p, int cls, const char *what);
struct Proc {
  int id; std::string name; u32 ip; int pid;
  std::map<int, FileObj*> fds; 
  i64 rt_off = 0;                    // node realtime offset (ns)
  bool alive = true; int exit_code = -1; bool crashed = false;
  WaitQ exitq;
  std::set<int> sigpend; WaitQ sigq; std::set<int> sigign;
  Node *node = nullptr;
  IoFaults io;
  u64 heap_live = 0, heap_blocks = 0; int dirs = 0;
  std::map<void*, std::string> popen_cmd;
  u64 errs = 0; std::string first_err, last_err;   // messages of level error or worse, and what goes to stderr
  std::vector<std::string> logs;     // syslog/stderr
  std::vector<std::function<void()>> on_kill;
  int fd_limit = 1024;
};
struct Node {                         // one incarnation of real code
  Proc *proc; void *dl = nullptr; std::vector<std::string> args; u64 base = 0;
  std::vector<void(*)(void)> atexits; int exiting = 0; int exit_code = 0;
};
extern std::vector<Proc*> g_procs;
Proc *new_proc(const std::string& name, u32 ip);
// Start a node running the real program image ("nbspd","nbspinsert",...)
Proc *start_node(const std::string& image, const std::string& name, u32 ip, const std::vector<std::string>& args, i64 rt_off = 0);
void crash_proc(Proc *p);                 // SIGKILL semantics
void end_proc(Proc *p, int code, bool crashed);
void signal_proc(Proc *p, int sig);
bool wait_exit(Proc *p, u64 timeout);
void set_clock_offset(Proc *p, i64 off);  // realtime step
u64 realtime_ns(Proc *p);
extern u64 g_epoch;

// ---------------------------------------------------------------- fds (used by libc wrappers and actors alike)
bool fd_full(Proc *p, int need); int fd_add(Proc *p, FileObj *o, int minfd = 3);
FileObj *fd_get(Proc *p, int fd);
void file_unref(FileObj *o);
extern size_t g_fifo_cap, g_popen_cap;
int sim_pipe_pair(Proc *rp, int *rfd, Proc *wp, int *wfd, size_t cap = 65536);
// Network control
struct NetCfg {
  u64 udp_min = 50*US, udp_jit = 0; double p_drop = 0, p_dup = 0, p_reorder = 0, p_corrupt = 0; u64 reorder_max = 5*MS;
  u64 tcp_min = 100*US, tcp_jit = 0; double p_tcp_rst = 0; double p_tcp_seg = 0;
  double p_stall = 0; u64 stall_max = 0;
};
extern NetCfg N;
void udp_inject(u32 srcip, u32 group, u16 port, const std::string& data);
void net_partition(u32 a, u32 b, bool on);      // holds traffic; b==0: everyone
void tcp_reset_all(u32 a, u32 b);               // RST all connections between
u64 net_bytes_between(u32 a, u32 b);
size_t udp_queue_len(Proc *p);
extern std::map<u32, std::string> g_rev_hosts;      // address -> name, for reverse look-ups
struct OsPolicy { std::set<u32> deny; double load = 0.1; };
extern OsPolicy OS;
// popen/exec hook: scenario decides what the launched command does
extern std::function<void*(Proc *filterproc, const std::string& cmd, int fd)> g_popen_main;   // body of the child
extern std::function<void(Proc *p, const std::string& path)> g_exec_hook;
extern std::function<void(Proc *p, const std::string& path, int flags)> g_open_hook;
extern std::function<void(Proc *p, const std::string& line)> g_log_hook;
extern std::vector<std::string> g_path_escapes;
void add_log(Proc *p, const std::string& s);

// libc-like calls usable from actors (same as the node sees)
extern "C" {
int sim_open(const char*, int, ...); int sim_close(int); ssize_t sim_read(int, void*, size_t); ssize_t sim_write(int, const void*, size_t);
int sim_socket(int,int,int); int sim_connect(int,const struct sockaddr*,socklen_t); int sim_bind(int,const struct sockaddr*,socklen_t);
int sim_listen(int,int); int sim_accept(int,struct sockaddr*,socklen_t*); int sim_fcntl(int,int,...); int sim_shutdown(int,int);
struct pollfd; int sim_poll(struct pollfd*, unsigned long, int); int sim_mkfifo(const char*, mode_t);
unsigned sim_sleep_s(unsigned); int sim_setsockopt(int,int,int,const void*,socklen_t);
}
u64 fnv(const void *p, size_t n, u64 h = 1469598103934665603ull);
std::string strf(const char *fmt, ...) __attribute__((format(printf,1,2)));
std::string slurp(const std::string& path, bool *ok = nullptr);
void spew(const std::string& path, const std::string& data);
bool exists(const std::string& path);
std::string ipstr(u32 ip);
// modules
struct Image { std::string name; std::vector<void*> copies; size_t used = 0; };
extern std::map<std::string, Image> g_images;
void cov_report(u64& edges); void load_images(const std::string& dir);
struct RunStats { std::map<std::string,u64> faults, probes; u64 switches=0, preempts=0, steps=0, events=0; };
extern RunStats R;
// scenarios
typedef void (*ScenFn)();
struct ScenReg { ScenReg(const char *name, ScenFn f); };
#define SCENARIO(name) static void scen_##name(); static ScenReg reg_##name(#name, scen_##name); static void scen_##name()
