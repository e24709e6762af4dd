#include "world.h"
// The timed transfers on pipes and network connections against every behaviour of the other side (C25).
extern size_t g_tcp_sndcap;
Proc *lib_node(const std::string& image, const std::string& name, u32 ip); void *lib_sym(Proc *p, const char *s);
typedef ssize_t (*rd_t)(int, void*, size_t, unsigned, int); typedef ssize_t (*srd_t)(int, void*, size_t, unsigned, int, int*); typedef ssize_t (*rdf_t)(int, void*, size_t, unsigned); typedef ssize_t (*gets_t)(int, char*, size_t);
static bool g_intr; static u64 g_intr_at; static int intr(){ return g_intr; }
SCENARIO(xfer){
  pick_sched_knobs(); net_knobs_lossless(); g_intr = false; g_intr_at = NEVER; static const u64 lat[] = {200*US, 20*MS, 900*MS}; N.tcp_min = lat[draw(S_NET, 3)]; if(draw(S_NET, 2)) N.p_tcp_seg = 0.3; Proc *n = lib_node("nbspd", "n0", 0x0A000001); n->sigign.insert(SIGPIPE); Proc *o = new_proc("peer", 0x0A000002);
  rd_t f_readn = (rd_t)lib_sym(n, "readn"), f_readm = (rd_t)lib_sym(n, "readm"), f_read1 = (rd_t)lib_sym(n, "read1"), f_writen = (rd_t)lib_sym(n, "writen"), f_writem = (rd_t)lib_sym(n, "writem"), f_write1 = (rd_t)lib_sym(n, "write1"); srd_t f_sreadm = (srd_t)lib_sym(n, "sreadm"), f_sreadn = (srd_t)lib_sym(n, "sreadn"); rdf_t f_rnf = (rdf_t)lib_sym(n, "readn_fifo"), f_rmf = (rdf_t)lib_sym(n, "readm_fifo"); void (*f_init)(int(*)()) = (void(*)(int(*)()))lib_sym(n, "init_readn");
  bool fifo = draw(S_PLAN, 2), rd = draw(S_PLAN, 2), interrupts = draw(S_FAULT, 4) == 3, done = false, pdone = false; std::string path = "shared/x.fifo"; mkdir("shared", 0755); if(fifo) mkfifo(path.c_str(), 0666); static const size_t caps[] = {65536, 4096, 9000}; g_fifo_cap = caps[draw(S_PLAN, 3)]; if(!fifo && draw(S_PLAN, 2)) g_tcp_sndcap = 3000;
  if(draw(S_FAULT, 2)){ n->io.on = true; n->io.p_tcp_short = 0.4; } std::string stream = rand_bytes(200000, draw(S_PLAN, 1000)); std::string moved; u64 avail_t = 0, closed_t = NEVER, room_t = 0; u64 opdl = NEVER; bool reset = false, peer_closed = false; size_t put = 0, got = 0; u64 slow = draw(S_PLAN, 3) == 2 ? 200*MS : 10*MS; (void)slow;
  // the other side: moves pieces, pauses, closes, resets, comes back
  int pieces = 1 + draw(S_FAULT, 12); bool ends = draw(S_FAULT, 2), rsts = !fifo && ends && draw(S_FAULT, 3) == 2, ready = false; int pfd = -1;
  actor(o, "peer", [&]{
    if(fifo){ wait_for([&]{ return ready; }, 5*SEC, 1*MS); pfd = sim_open(path.c_str(), (rd ? O_WRONLY : O_RDONLY) | O_NONBLOCK); }
    else { int l = sim_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in in; memset(&in,0,sizeof in); in.sin_family = AF_INET; in.sin_port = htons(77); in.sin_addr.s_addr = htonl(0x0A000002); sim_bind(l, (struct sockaddr*)&in, sizeof in); sim_listen(l, 2); pfd = sim_accept(l, nullptr, nullptr); sim_close(l); sim_fcntl(pfd, F_SETFL, O_NONBLOCK); }
    for(int i=0;i<pieces && !done;i++){ static const u64 g[] = {0, 1*MS, 300*MS, 1500*MS, 1000*MS}; u64 w = g[draw(S_FAULT, 5)]; if(w) sim_sleep(draw(S_FAULT, 2) ? draw(S_FAULT, w) : w, false); if(opdl != NEVER && opdl > g_now && draw(S_FAULT, 4) == 3){ sim_sleep(opdl - g_now + draw(S_FAULT, 8)*US/2, false); fault_fired("at_deadline"); } size_t k; switch(draw(S_FAULT, 4)){ case 0: k = 1 + draw(S_FAULT, 20); break; case 1: k = 1 + draw(S_FAULT, 3000); break; default: k = 1 + draw(S_FAULT, 20000); }
      if(rd){ k = std::min(k, stream.size() - put); if(!k) break; size_t e = put + k; u64 until = g_now + 20*SEC; while(put < e && g_now < until && !done){ ssize_t r = sim_write(pfd, stream.data() + put, std::min<size_t>(e - put, 4096)); if(r > 0){ put += r; avail_t = g_now; } else if(errno == EAGAIN) sim_sleep(1*MS, false); else break; } }
      else { char b[4096]; size_t e = got + k; u64 until = g_now + 5*SEC; while(got < e && g_now < until && !done){ ssize_t r = sim_read(pfd, b, std::min(e - got, sizeof b)); if(r > 0){ moved.append(b, r); got += r; room_t = g_now; } else if(r == 0 && !fifo) break; else sim_sleep(1*MS, false); } } }
    if(ends && !done){ closed_t = g_now; peer_closed = true; if(rsts) reset = true; sim_close(pfd); pfd = -1; fault_fired(rsts ? "peer_reset" : "peer_closed"); if(rsts) tcp_reset_all(0x0A000001, 0x0A000002); }
    pdone = true;
    if(!rd && !ends) while(!done || true){ char b[4096]; ssize_t r = sim_read(pfd, b, sizeof b); if(r > 0){ moved.append(b, r); got += r; room_t = g_now; } else { if(done) break; sim_sleep(1*MS, false); } } });
  if(interrupts) actor(o, "stop", [&]{ sim_sleep(draw(S_FAULT, 6*SEC), false); g_intr = true; g_intr_at = g_now; fault_fired("interrupted"); });
  size_t pos = 0; std::string sent; bool unknown = false; int ops = 0; bool ended = false;
  actor(n, "user", [&]{
    if(interrupts || draw(S_PLAN, 2)) f_init(intr); int fd;
    if(fifo){ fd = sim_open(path.c_str(), draw(S_PLAN, 2) && rd ? O_RDWR|O_NONBLOCK : rd ? O_RDONLY|O_NONBLOCK : O_RDWR|O_NONBLOCK); ready = true; wait_for([&]{ return pfd != -1 || peer_closed; }, 5*SEC, 1*MS); if(!rd){ int f2 = sim_open(path.c_str(), O_WRONLY|O_NONBLOCK); if(f2 < 0){ ended = done = true; return; } sim_close(fd); fd = f2; } }
    else { fd = actor_connect(n, 0x0A000002, 77); if(fd >= 0) sim_fcntl(fd, F_SETFL, draw(S_PLAN, 2) ? O_NONBLOCK : 0); }
    bool rdwr = fifo && rd && false; (void)rdwr;
    for(int k = 2 + draw(S_PLAN, 14); k-- && !ended;){ ops++; size_t size; switch(draw(S_PLAN, 4)){ case 0: size = 1 + draw(S_PLAN, 10); break; case 1: size = 1 + draw(S_PLAN, 3000); break; case 2: size = 4; break; default: size = 1 + draw(S_PLAN, 20000); } int retry = (int)draw(S_PLAN, 4) - 1; unsigned ms; static const unsigned mss[] = {1000, 50, 2000, 0}; ms = mss[draw(S_PLAN, 4)]; int which = draw(S_PLAN, rd ? (fifo ? 7 : 5) : 3); bool one = false; u64 t0 = g_now; int eof = -7; bool has_eof = false; if(draw(S_PLAN, 3) == 2) sim_sleep(draw(S_PLAN, 1500*MS), false); t0 = g_now; opdl = t0 + (u64)(which == 0 || which == 3 || which == 5 ? ms/1000*1000 : ms)*MS*(retry < 0 || which >= 5 ? 1 : retry + 1);
      if(rd){ std::string buf(size + 8, '\x5a'); char *b = &buf[0]; ssize_t r = 0; errno = 0; unsigned s = ms/1000; const char *nm = "";
        switch(which){ case 0: nm = "readn"; ms = s*1000; r = f_readn(fd, b, size, s, retry); break; case 1: nm = "readm"; r = f_readm(fd, b, size, ms, retry); break; case 2: nm = "sreadm"; r = f_sreadm(fd, b, size, ms, retry, &eof); has_eof = true; break; case 3: nm = "sreadn"; ms = s*1000; r = f_sreadn(fd, b, size, s, retry, &eof); has_eof = true; break; case 4: nm = "read1"; one = true; r = f_read1(fd, b, size, ms, retry); break; case 5: nm = "readn_fifo"; ms = s*1000; retry = 0; r = f_rnf(fd, b, size, s); break; default: nm = "readm_fifo"; retry = 0; r = f_rmf(fd, b, size, ms); }
        u64 limit = (u64)ms*MS*(retry < 0 ? 1 : retry + 1), took = g_now - t0, slack = 500*MS; bool intd = g_intr && g_intr_at <= g_now; std::string cs = strf("%s(size %zu, %u ms, retry %d) on a %s returned %zd after %.3f s", nm, size, ms, retry, fifo ? "fifo" : "socket", r, took/1e9);
        if(buf.compare(size, 8, std::string(8, '\x5a'))) violation("xfer-overrun", "%s wrote outside its buffer", cs.c_str()); if(r > (ssize_t)size || r < -2) violation("xfer-result", "%s", cs.c_str());
        if(r > 0){ if(pos + r > stream.size() || buf.compare(0, r, stream, pos, r)) violation("xfer-bytes", "%s: the bytes are not the next %zd of the stream at %zu", cs.c_str(), r, pos); pos += r; }
        bool short_ = r >= 0 && (size_t)r < size && !one; bool eof_ok = peer_closed && (reset || pos == put); u64 last = std::max<u64>(t0, 0);
        if(r == 0 && !eof_ok) violation("xfer-eof", "%s: end of data was reported while the other side is open (%zu of %zu bytes taken)", cs.c_str(), pos, put);
        if(r == -2 && !intd && took + 1*MS < limit) violation("xfer-early", "%s: time-out before its time", cs.c_str()); if(r == -1 && !reset) violation("xfer-error", "%s: error %d for nothing", cs.c_str(), errno);
        if(short_ && r > 0){ bool at_eof = has_eof ? eof == 1 : eof_ok; if(has_eof && eof != 0 && eof != 1) violation("xfer-eofflag", "%s: end-of-data flag not set (%d)", cs.c_str(), eof); if(has_eof && eof == 1 && !eof_ok) violation("xfer-eof", "%s: end of data was reported while the other side is open", cs.c_str()); if(!at_eof && !intd && took + 1*MS < limit) violation("xfer-early", "%s: a part was returned before the time-out", cs.c_str()); }
        if(has_eof && r == 0 && eof != 1) violation("xfer-eofflag", "%s: end of data without the flag", cs.c_str()); u64 ref = std::max(last, avail_t + (fifo ? 0 : N.tcp_min + N.tcp_jit)); if(!one && (fifo || !(N.p_tcp_seg > 0) || N.tcp_min < 900*MS) && r < (ssize_t)size && g_now > ref + limit*(which >= 5 ? 2 : 1) + slack + (fifo ? 0 : 2*lat[2])) violation("xfer-late", "%s: nothing arrived in the last %.3f s", cs.c_str(), (g_now - ref)/1e9); if(one && took > limit + slack) violation("xfer-late", "%s", cs.c_str()); if(intd && r < (ssize_t)size && g_now > std::max(g_intr_at, t0) + (u64)ms*MS*2 + slack && g_now > ref + (u64)ms*MS*2 + slack) violation("xfer-stop", "%s: the stop request came %.3f s before", cs.c_str(), (g_now - g_intr_at)/1e9);
        if(r == 0 || r == -1) ended = true; if(pdone && put == pos && !peer_closed && draw(S_PLAN, 2)) ended = true; probe(r > 0 ? short_ ? "read_part" : "read_whole" : r == 0 ? "read_eof" : r == -2 ? "read_timeout" : "read_error");
      } else { std::string b = stream.substr(sent.size() % 100000, size); ssize_t r = 0; unsigned s = ms/1000; const char *nm = ""; errno = 0; switch(which){ case 0: nm = "writen"; ms = s*1000; r = f_writen(fd, &b[0], size, s, retry); break; case 1: nm = "writem"; r = f_writem(fd, &b[0], size, ms, retry); break; default: nm = "write1"; one = true; r = f_write1(fd, &b[0], size, ms, retry); }
        int e = errno; u64 limit = (u64)ms*MS*(retry < 0 ? 1 : retry + 1), took = g_now - t0; bool intd = g_intr && g_intr_at <= g_now; std::string cs = strf("%s(size %zu, %u ms, retry %d) on a %s returned %zd after %.3f s", nm, size, ms, retry, fifo ? "fifo" : "socket", r, took/1e9); if(r > (ssize_t)size || r < -1) violation("xfer-result", "%s", cs.c_str());
        if(r > 0) sent.append(b, 0, r); if(r == -1){ if(!peer_closed && !reset) violation("xfer-error", "%s: error %d for nothing", cs.c_str(), e); unknown = true; sent.append(b); ended = true; } bool part = r >= 0 && (size_t)r < size && !one; if(one && r == 0) part = true; if(part && !intd && took + 1*MS < limit) violation("xfer-early", "%s: a part was written and the time-out was not over%s", cs.c_str(), peer_closed ? " (the other side has closed)" : ""); if(part && took > limit*64 + 500*MS) violation("xfer-late", "%s", cs.c_str()); u64 ref = std::max(t0, room_t + 2*lat[2]); if(part && (fifo || N.tcp_min < 900*MS) && g_now > ref + limit + 500*MS && !peer_closed) violation("xfer-late", "%s: the other side took nothing in the last %.3f s", cs.c_str(), (g_now - ref)/1e9);
        probe(r == (ssize_t)size ? "write_whole" : r > 0 ? "write_part" : r == 0 ? "write_timeout" : "write_error"); } }
    if(!rd){ for(int i=0;i<400 && moved.size() < sent.size() && !peer_closed;i++) sim_sleep(50*MS, false); sim_close(fd); } ended = true; done = true; });
  wait_for([&]{ return done; }, 600*SEC, 10*MS); if(!done) violation("xfer-hang", "a timed transfer does not return: %s", blocked_summary().c_str()); sim_sleep(3*SEC, false);
  if(!rd){ if(moved.compare(0, moved.size(), sent, 0, moved.size())) violation("xfer-bytes", "the other side received bytes that differ from those reported as written"); if(!peer_closed && !unknown && moved.size() != sent.size()) violation("xfer-count", "%zu bytes were reported as written and %zu arrived", sent.size(), moved.size()); }
  sample(strf("%d operations on a %s, %s", ops, fifo ? "fifo" : "socket", rd ? "reading" : "writing"));
}
