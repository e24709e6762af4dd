#include "cli.h"
// Clients of the network server while products arrive. mode 0: file clients (C08); 1: all kinds on one port (C14).
static Prod big(Feed& fd, int chan){ Prod p = rand_prod(fd.seq++, chan, 500, false); size_t hdr = p.ccb.size() + 20 + (p.awips.empty() && p.notawips.empty() ? (p.bbb.empty() ? 0 : 0) : 0); (void)hdr; size_t want = 65536*(1 + draw(S_PLAN, 2)); u32 tmp = 0; Prod q = p; prod_build(q, tmp); size_t h = q.plain.size() - q.body.size(); int d = (int)draw(S_PLAN, 3) - 1; p.body += rand_bytes(want + d - h - p.body.size(), p.seq); p.fragsz = 4000; p.ctrlhdr = p.compressed = false; prod_build(p, fd.sbn[chan]); return p; }
static void serve(int mode){
  pick_sched_knobs(); net_knobs_lossless(); install_pipe_filters();
  Conf c("n0"); c["filterlist"] = "f1"; auto f1 = g_pf["f1"] = new PipeFilter; RxModel rx; int types = mode ? 7 : 3; server_conf(c, types); if(draw(S_PLAN, 4) == 3){ c["spoolsavefmt"] = "1"; rx.o.savefmt = 1; }
  static const char *qt[] = {"10000", "500", "50"}; c["client_queue_read_timeout_ms"] = qt[draw(S_PLAN, 3)];
  Proc *n = boot(c); rx.install(n); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  static const double st[] = {0, 0.2, 0.6}; n->io.on = true; n->io.p_tcp_short = st[draw(S_PLAN, 3)]; if(draw(S_PLAN, 3) == 2){ N.p_stall = 0.02; N.stall_max = draw(S_PLAN, 2) ? 3*SEC : 200*MS; }
  Feed fd(&rx); int nc = 1 + draw(S_PLAN, 5); static const char *kinds[] = {"NBS1","NBS2","EMWIN"};
  for(int i=0;i<nc;i++){ Client *k = client_new(kinds[draw(S_PLAN, mode ? 3 : 2)], 0x0A000100 + i, strf("c%d", i)); static const u64 rd[] = {0, 2*MS, 100*MS}; k->rdelay = rd[draw(S_PLAN, 3)]; static const size_t ch[] = {16384, 700, 4000}; k->chunk = ch[draw(S_PLAN, 3)]; if(k->chunk == 700) k->rdelay = std::min<u64>(k->rdelay, 2*MS); if(draw(S_PLAN, 3) == 2) k->idwait = 4*SEC; if(k->kind == "EMWIN" && draw(S_PLAN, 2)) k->ident = "ByteBlast Client|NM-test@example.net|V2"; u64 at_ = draw(S_PLAN, 3) ? draw(S_PLAN, 20*SEC) : 0; 
    actor(k->p, "client", [k, at_]{ if(at_) sim_sleep(at_, false); client_run(k, 0x0A000001); }); }
  if(mode){ static const u64 ed[] = {0, 2*MS, 100*MS}; g_emw.delay_max = ed[draw(S_PLAN, 3)]; }
  int np = 4 + draw(S_PLAN, 40); static const u64 gp[] = {0, 20*MS, 1*SEC, 3*SEC}; u64 gap = gp[draw(S_PLAN, 4)]; bool bigs = draw(S_PLAN, 3) == 2; if(gap == 0) sim_sleep(draw(S_PLAN, 2) ? 10*SEC : draw(S_PLAN, 8*SEC), false);
  for(int i=0;i<np;i++){ int ch = draw(S_PLAN, 3); if(bigs && draw(S_PLAN, 5) == 4) fd.send(big(fd, ch), 300*US); else fd.send(fd.make(ch, draw(S_PLAN, 6) == 5 ? 90000 : 9000), 300*US); if(gap) sim_sleep(draw(S_PLAN, gap), false); }
  u64 J = (6 + 2*nc)*SEC + (N.p_stall > 0 ? N.stall_max : 0); sim_sleep(J + 8*SEC, false); fd.some(2, 2, 3000, 200*MS);             // everybody is connected by now
  N.p_stall = 0; drain_feed(n); for(auto k : g_cli){ k->rdelay = 0; k->chunk = 16384; }
  size_t total = 0, last = ~0ul; wait_for([&]{ total = 0; for(auto k : g_cli) total += k->ps.bytes; bool same = total == last; last = total; return same; }, 300*SEC, 8*SEC);
  expect_alive(n, "while serving clients"); rx.check(f1->notes, "n0");
  for(auto k : g_cli){
    if(!k->connected) violation("client-refused", "%s could not connect", k->p->name.c_str());
    if(!k->ps.err.empty()) violation("client-format", "%s (%s): %s", k->p->name.c_str(), k->kind.c_str(), k->ps.err.c_str());
    if(k->eof) violation("client-dropped", "%s (%s) was disconnected by the server", k->p->name.c_str(), k->kind.c_str());
    if(!k->ps.buf.empty() || k->ps.mid) violation("client-partial", "%s (%s): an unfinished product remains (%zu bytes, block %d of %d)", k->p->name.c_str(), k->kind.c_str(), k->ps.buf.size(), k->ps.blk, k->ps.nblk);
    check_stream(k->p->name, k->kind, k->ps.got, f1->notes, rx, k->ident_at + J); probe("client_products", k->ps.got.size()); }
  sample(strf("%d clients, %zu products", nc, f1->notes.size())); n->io.on = false;
  if(draw(S_PLAN, 2)) for(auto k : g_cli) k->stop = true;
  clean_stop(n, 60*SEC, "with clients connected");
}
SCENARIO(serve){ serve(0); }
SCENARIO(servemix){ serve(1); }
