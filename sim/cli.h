#pragma once
#include "feed.h"
// Clients of the network server: real wire protocols, checked byte by byte.
struct Got { u64 t; u32 seq = 0; int type = 0, cat = 0, code = 0, chan = 0; std::string name, path, data; };
struct Parser {                        // one connection's byte stream
  std::string kind, buf, err; std::vector<Got> got; Got curg; int nblk = 0, blk = 0; bool mid = false; u64 bytes = 0; bool nocheck = false;
  void feed(const std::string& s); bool step();
};
struct Client {
  std::string kind; Proc *p = nullptr; int fd = -1; u64 ident_at = NEVER, conn_at = NEVER; bool eof = false, connected = false, stop = false, done = false; Parser ps; std::vector<Parser> past; u64 rdelay = 0; size_t chunk = 16384; u64 hold_until = 0; std::string ident; u64 idwait = 0; int pausepct = 0;
};
extern std::vector<Client*> g_cli;
Client *client_new(const std::string& kind, u32 ip, const std::string& name);
void client_run(Client *c, u32 server);          // connect, identify, read until stop/eof (body of an actor fiber)
Fiber *client_start(Client *c, u32 server);
std::string emwin_text(u32 seq);                  // what the scripted emwin filter produces
std::string emwin_name(u32 seq);
bool emwin_pass(u32 seq);
void emwin_filter_install(const std::string& root);   // adds to the popen hook
struct EmwinState { u64 delay_max = 0; int opens = 0; bool die = false, hang = false; int bad_reply = 0; u64 asked = 0; }; extern EmwinState g_emw;
// got must be a contiguous run of the reference sequence, up to its end; everything announced after `from` must be there
void check_stream(const std::string& who, const std::string& kind, const std::vector<Got>& got, const std::vector<Note>& ref, const RxModel& rx, u64 from, bool to_end = true);
void server_conf(Conf& c, int types);
