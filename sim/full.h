#pragma once
#include "cli.h"
// A whole station with a random configuration: any mix of feeds, services, filters and peers.
struct FifoFilter {
  std::string path; Proc *p = nullptr; int fd = -1; std::vector<Note> notes; std::string bad, buf; u64 delay_max = 0, stall_until = 0; bool die = false, stop = false, open_now = false; u64 reopen_after = 0; std::vector<size_t> starts; std::vector<u64> deaths; u64 last_stall_end = 0; bool opened = false;
};
FifoFilter *fifo_filter(const std::string& path, const std::string& nm);
// a scripted master server: accepts slaves, then writes whatever is queued to all of them
struct Smaster { Proc *p = nullptr; std::string proto; std::vector<int> fds; std::deque<std::string> q; size_t conns = 0, idents = 0; std::string badident; bool stop = false, mute = false; int drop_after = -1; };
Smaster *smaster_new(const std::string& name, u32 ip, const std::string& proto = "NBS1");
std::string nbs_envelope(u32 id, const std::string& d);
std::string nbs1_packet(u32 seq, int type, int cat, int code, int chan, const std::string& base, int zip, int nb, int b, const std::string& data);
std::vector<std::string> nbs1_packets(const Prod& p, const std::string& data);
std::string nbs2_packet(const Prod& p, const std::string& fname, const std::string& fpath);
std::string infeed_msg(const std::string& line);
bool infeed_write(const std::string& fifo, const std::string& bytes);      // from any actor; false if the pipe cannot be opened
struct Full {
  Conf c; RxModel rx; Feed fd; PipeFilter *f1 = nullptr; Proc *n = nullptr; int inc = 0, modes = 1, types = 0, nch = 3; Smaster *m = nullptr; std::function<void(const std::string&)> on_master; std::vector<Client*> cl; std::vector<FifoFilter*> ff; bool quit = false; std::set<u32> sent; u64 lastsend = 0; int noise = 0;
  std::map<u32,u64> sent_at; Proc *inp = nullptr; std::deque<std::string> inq; Full(const std::string& root):c(root),fd(&rx){}
};
enum { FULL_SBN = 1, FULL_NOEMWIN = 2, FULL_NOFIFO = 4, FULL_PLAIN = 8, FULL_SERVE = 16 };
Full *full_new(int flags = 0); Proc *full_boot(Full *w);
u32 full_send(Full *w, size_t maxbody = 9000);                 // one product through one of the feeds
bool full_has(Full *w, u32 seq);
void full_flow(Full *w, u64 bound, const char *when);          // products are received and announced again within the bound
void full_noise(Full *w, int n);                               // clients of every kind of behaviour
void full_check(Full *w, bool dup_ok, bool disk_now = true);
void full_files_whole(Full *w, const std::set<std::string>& except = {});
