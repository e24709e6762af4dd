#pragma once
#include "run.h"
#include <poll.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <algorithm>
// ---------------------------------------------------------------- products and NOAAPort frames
struct Prod {
  u32 seq = 0, orig = 0; int chan = 0; int type = 4, cat = 1, code = 0;
  std::string ccb, wmo_id, station, time, bbb, awips, notawips;   // header parts
  std::string body;              // everything after the header lines
  bool ctrlhdr = false;          // frames carry the header as a control block
  bool compressed = false;       // frames 0.. carry zlib streams (needs ctrlhdr)
  size_t fragsz = 1000; bool zero_frag_flag = false, fragvar = false;
  std::vector<std::string> frames; 
  std::string saved;             // bytes expected in the spool (save format = as received)
  std::string plain;             // uncompressed product incl. ccb+header
  std::string fname, fbasename, hdr;
  int nfrag = 0;
};
void prod_build(Prod& p, u32& sbn_seq);                 // fills frames/saved/fname...
std::string sbn_frame(u32 sbnseq, int cmd, const std::string& rest, int chan);
Prod rand_prod(u32 seq, int chan, size_t maxbody, bool allow_compressed = true);
std::string rand_bytes(size_t n, u64 key);              // deterministic content, not from the choice tape
void inject_frame(int chan, const std::string& f);      // multicast to the channel's group/port
extern const std::vector<std::pair<u32,u16>> npchan;    // (group, port)
// ---------------------------------------------------------------- configuration
struct Conf { std::string root; std::map<std::string,std::string> o;
  Conf(const std::string& r); std::string& operator[](const std::string& k){ return o[k]; } std::string write(); };
Proc *boot(Conf& c, int incarnation = 0, i64 rt_off = 0);
u32 node_ip(const std::string& root);
bool wait_log(Proc *p, const std::string& s, u64 timeout);
bool has_log(Proc *p, const std::string& s); size_t count_log(Proc *p, const std::string& s);
bool wait_for(std::function<bool()> f, u64 timeout, u64 step = 20*MS);
bool node_ready(Proc *p, u64 timeout = 20*SEC);
void expect_alive(Proc *p, const char *when);
void clean_stop(Proc *p, u64 bound, const char *when);
// ---------------------------------------------------------------- filters (pipe)
struct Note { u32 seq; int type, cat, code, chan; std::string fname, fpath; size_t size = 0; std::string raw; u64 t; bool read_ok = false; std::string content; u64 gsn; };
struct PipeFilter { std::vector<Note> notes; std::vector<std::string> bad; std::vector<std::string> rawlines; u64 opens = 0, closes = 0; u64 delay_max = 0; bool die = false; u64 hang_until = 0; int exit_after = -1; bool slurp_content = true; std::string partial; std::vector<size_t> starts; std::vector<u64> deaths; std::vector<std::string> partials; size_t ends = 0; };
extern std::map<std::string, PipeFilter*> g_pf;     // by command
void install_pipe_filters();
bool parse_note(const std::string& l, Note& n, bool with_size = false);
u64 next_gsn();
// ---------------------------------------------------------------- helpers
std::vector<std::string> lines(const std::string& s);
std::vector<std::string> split(const std::string& s, char c);
void net_knobs_lossless(); void pick_net_knobs(bool allow_loss);
void pick_io_knobs(Proc *p, bool files, bool mem);
void sample(const std::string& s);
int actor_connect(Proc *a, u32 ip, u16 port, u64 timeout = 5*SEC);
bool actor_readn(int fd, std::string& out, size_t n, u64 deadline);
ssize_t actor_read_some(int fd, std::string& out, u64 deadline);
bool actor_writeall(int fd, const std::string& s, u64 deadline);
Fiber *actor(Proc *p, const std::string& name, std::function<void()> f);
std::string hexs(const std::string& s, size_t n = 48);
void be32(std::string& s, u32 v); void be16(std::string& s, u16 v); u32 rd32(const std::string& s, size_t o); u16 rd16(const std::string& s, size_t o);
std::string zcomp(const std::string& s);
bool zdecomp(const std::string& s, std::string& out, size_t maxn);
// from vfs.cc
void crash_after_ops(Proc *p, i64 ops); size_t open_fds(Proc *p); std::string fd_listing(Proc *p); int tcp_conns(u32 ip); size_t fifo_backlog(const std::string& path); void fd_set_cap(Proc *p, int fd, size_t rcv, size_t snd);
extern std::function<void(Proc*, const char*)> g_op_hook; extern std::function<void(Proc*, const std::string&, const std::string&)> g_fs_hook;
extern std::map<u32,u64> g_udp_received, g_udp_overflow;
extern std::function<void(Proc*, u32 group, u16 port, const std::string&)> g_udp_hook;
extern "C" void sim_add_host(const char *n, u32 ip);
