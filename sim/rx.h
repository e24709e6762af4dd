#pragma once
#include "world.h"
// Reference model of the NOAAPort receiver: fed with exactly the datagrams the daemon's sockets handed
// to it, it says for every accepted product start what the outcome must be.
struct RxOpts { int savefmt = 0; std::string savez, accept; bool savez_set = false, accept_set = false; bool lenient = false; };
struct RxModel {
  struct Meta { int prod; int block; bool start, end, abort; };
  struct Inst { int prod; int chan; bool must = false, loose = false, closed = false, aborted = false, rejected = false; u64 t = 0; };
  std::map<std::string, Meta> meta; std::vector<Prod> prods; std::map<u32,int> byseq; std::vector<Inst> insts; struct C { int active = -1; int next = 0; u32 lastsbn = 0; } ch[16];
  std::vector<int> order[16];                 // prods that must complete, per channel, in completion order
  u64 rx = 0, bad = 0, ok = 0, jumps = 0, bytes = 0, aborts = 0; RxOpts o;
  int add(Prod p);                            // register a built product, returns its index
  void feed(int chan, const std::string& d);  // a datagram consumed by the daemon
  void abort_frame(const std::string& f, u32 seq);
  bool accepted(const Prod& p) const; std::string content(const Prod& p) const;
  void install(Proc *n);                      // hook the daemon's sockets
  // final checks; notes = what the filter was told
  void check(const std::vector<Note>& notes, const std::string& root, bool check_dir = true);
};
bool patt_match(const std::string& patt, const std::string& s);   // right-most matching wins
std::string rx_abort_frame(const Prod& p, u32 sbn, int flag);
struct MissRec { u32 seq; int type, cat, code, chan; std::string fbasename; };
std::vector<MissRec> read_missing(const std::string& path, std::vector<std::string> *bad = nullptr);
std::vector<std::string> list_files(const std::string& dir);
void drain_feed(Proc *n, u64 settle = 3*SEC);    // wait until all datagrams were consumed and the daemon is idle
