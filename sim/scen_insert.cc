#include "full.h"
// The insertion tool, many at a time, against a running, slow, stopped or restarted daemon (C13).
extern "C" void proc_stdin(Proc *p, const std::string& path);
SCENARIO(insert){
  pick_sched_knobs(); net_knobs_lossless(); Full *w = full_new(FULL_SBN | FULL_NOFIFO | FULL_PLAIN); w->types = 0; w->c.o.erase("servertype"); w->modes = draw(S_PLAN, 3) == 2 ? 5 : 4; w->c["feedmode"] = strf("%d", w->modes); static const size_t caps[] = {65536, 4096}; g_fifo_cap = caps[draw(S_PLAN, 2)]; static const u64 fd[] = {0, 3*MS, 400*MS}; w->f1->delay_max = fd[draw(S_PLAN, 3)];
  static const char *rto[] = {"10", "1", "2"}; w->c["slave_read_timeout_secs"] = rto[draw(S_PLAN, 3)];
  Proc *n = full_boot(w); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str()); std::string fifo = w->c["infeedfifo"]; wait_for([&]{ return exists(fifo); }, 10*SEC, 10*MS);
  if(draw(S_PLAN, 3) == 2){ n->io.on = true; n->io.p_stall = 0.02; n->io.stall_max = draw(S_PLAN, 2) ? 3*SEC : 200*MS; }
  struct Req { u32 seq; int type, cat, code, chan; std::string fname, fpath, data; bool piped = false, badargs = false, longname = false, killed = false, down = false, pre = false, space = false; Proc *p = nullptr; int rc = -1; u64 t0 = 0, t1 = 0; int worker; }; static std::vector<Req*> reqs; reqs.clear(); bool up = true; u64 down_from = NEVER, down_to = 0; size_t left = 14; int nw = 1 + draw(S_PLAN, 6), done = 0; u32 seq = 5000; bool stopping = draw(S_PLAN, 4) == 3; u64 gap = draw(S_PLAN, 3) ? 0 : 2*SEC;
  mkdir("n0/in", 0755); mkdir((w->c.root + "/spool/kwbc").c_str(), 0755);
  for(int i=0;i<nw;i++){ Proc *a = new_proc(strf("user%d", i), 0x0A000001); actor(a, "user", [&, i]{
    int k = 1 + draw(S_PLAN, 4); for(int j=0;j<k && left;j++){ left--; if(gap) sim_sleep(draw(S_PLAN, gap), false);
      Req *r = new Req; reqs.push_back(r); r->worker = i; r->seq = draw(S_PLAN, 5) == 4 ? 4294967000u + seq : seq; seq++; r->type = draw(S_PLAN, 2)*255; r->cat = draw(S_PLAN, 256); r->code = draw(S_PLAN, 256); r->chan = draw(S_PLAN, 5); static const char *nm[] = {"kwbc_sxus20-abcdef", "kwbc_sxus20", "kwbc_ttaa00-nnnxxx", "k", "tjsj_sdus32-nvwjua"}; r->fname = nm[draw(S_PLAN, 5)]; r->fpath = strf("%s/spool/kwbc/%s.121212_%u", w->c.root.c_str(), r->fname.c_str(), seq);
      size_t len = draw(S_PLAN, 3) == 2 ? draw(S_PLAN, 60000) : draw(S_PLAN, 3000); r->data = rand_bytes(len, 77777 + seq); r->piped = draw(S_PLAN, 2); std::vector<std::string> av = {"nbspinsert"}; std::string in = strf("n0/in/%u", seq);
      if(r->piped){ av.push_back("-i"); spew(in, r->data); if(draw(S_PLAN, 4) == 3){ r->pre = true; spew(r->fpath, rand_bytes(draw(S_PLAN, 5000), 5)); } } else spew(r->fpath, r->data);
      u64 odd = draw(S_PLAN, 12); std::string ty = strf("%d", r->type), fn = r->fname, fp = r->fpath; if(odd == 11){ r->badargs = true; ty = draw(S_PLAN, 2) ? "256" : "x1"; } else if(odd == 10){ r->longname = true; if(draw(S_PLAN, 2)) fn += "-and-more-than-that"; else if(r->piped) fp += "_and_a_name_that_is_much_too_long_to_be_one_of_the_spool"; else fn += "0123456789abcdefgh"; } else if(odd == 9){ r->space = true; if(draw(S_PLAN, 2)) fn += " x"; else fn += "\n"; }
      r->fname = fn; r->fpath = fp; av.insert(av.end(), {"-f", fifo, strf("%u", r->seq), ty, strf("%d", r->cat), strf("%d", r->code), strf("%d", r->chan), fn, fp}); r->t0 = g_now; r->p = start_node("nbspinsert", strf("n0.ins%u", seq), 0x0A000001, av); if(r->piped) proc_stdin(r->p, in);
      if(draw(S_FAULT, 3) == 2){ r->p->io.on = true; r->p->io.p_short_read = 0.3; } if(draw(S_FAULT, 10) == 9){ r->p->io.on = true; r->p->io.p_enospc = 0.3; } if(draw(S_FAULT, 10) == 9){ r->killed = true; crash_after_ops(r->p, draw(S_FAULT, 30)); }
      wait_exit(r->p, 150*SEC); r->t1 = g_now; r->rc = r->p->crashed ? -9 : r->p->exit_code; if(r->p->crashed && !r->killed) fault_fired("writer_sigpipe"); }
    done++; }); }
  Proc *badp = new_proc("bad", 0x0A000001); if(draw(S_FAULT, 3) == 2) for(int i=1 + draw(S_FAULT, 3); i--;){ static const char *bad[] = {"700 1 2 3 4 a b c", "701 1 2 3 x n0/q", "702 1 2 3 4 averyveryverylongname n0/spool/q", "nothing", "703 1 2 3 4 name n0/spool/", "704 1 2 3 4 name n0/spool/a_base_name_that_is_too_long_for_the_spool"}; std::string b = infeed_msg(bad[draw(S_FAULT, 6)]); u64 d = draw(S_FAULT, gap ? 4*SEC : 2*MS); actor(badp, "bad", [=]{ sim_sleep(d, false); infeed_write(fifo, b); }); fault_fired("refused_record"); }
  if(draw(S_FAULT, 4) == 3){ int k = 20 + draw(S_FAULT, 200); fault_fired("pipe_flood"); actor(badp, "flood", [=]{ sim_sleep(draw(S_FAULT, gap ? 2*SEC : 1*MS), false); for(int i=0;i<k;i++) infeed_write(fifo, infeed_msg(strf("%d 1 2 3 4 flood n0/spool/kwbc/flood.%d", 900000 + i, i))); }); }
  if(stopping){ sim_sleep(draw(S_PLAN, 3*SEC), false); n->io.p_stall = 0; down_from = g_now; clean_stop(n, 90*SEC, "while files are inserted"); fault_fired("restart"); sim_sleep(draw(S_PLAN, 4*SEC), false); n = full_boot(w); if(!node_ready(n)) violation("boot", "daemon did not start again: %s", n->logs.empty() ? "" : n->logs.back().c_str()); wait_for([&]{ return exists(fifo); }, 10*SEC, 10*MS); down_to = g_now; }
  wait_for([&]{ if(w->modes & 1 && draw(S_PLAN, 4) == 3){ Prod p = w->fd.make(draw(S_PLAN, 3), 2000); w->fd.send(p, 200*US); } return done == nw || !n->alive; }, 200*SEC, 200*MS); expect_alive(n, "while files are inserted"); if(done != nw) violation("insert-hang", "an insertion did not end: %s", blocked_summary().c_str());
  n->io.on = false; w->f1->delay_max = 0; sim_sleep(5*SEC, false); drain_feed(n); size_t ok = 0, failed = 0; if(!w->f1->bad.empty()) violation("announce-format", "malformed filter line: %s", hexs(w->f1->bad[0], 200).c_str());
  std::map<std::string, std::vector<const Note*>> by; for(auto &t : w->f1->notes) by[t.fpath].push_back(&t); std::map<std::string, Req*> rq; for(auto r : reqs) rq[r->fpath] = r;
  for(auto r : reqs){ size_t c = by[r->fpath].size(); bool over = r->t1 + 5*SEC >= down_from && r->t0 <= down_to;        // the daemon was stopping, down or starting meanwhile
    if(c > 1) violation("insert-repeat", "insertion %u was announced %zu times", r->seq, c); if(r->rc == 0 && c == 0 && !over) violation("insert-lost", "the tool reported success for %u (%s) and it was not announced", r->seq, hexs(r->fname, 60).c_str()); if(r->rc != 0 && r->rc != -9 && c) violation("insert-false-failure", "the tool reported failure %d for %u and it was announced", r->rc, r->seq);
    if(r->rc != 0 && !r->killed && !r->badargs && !r->longname && !r->space && !over && !(r->p->io.p_enospc > 0)) violation("insert-refused", "the tool failed with %d for %u: %s", r->rc, r->seq, r->p->logs.empty() ? "" : r->p->logs.back().c_str()); if(r->badargs && r->rc == 0) violation("insert-accepted", "the tool accepted attributes out of range for %u", r->seq);
    if(c){ ok++; const Note& t = *by[r->fpath][0]; if(t.seq != r->seq || (t.type & 255) != r->type || (t.cat & 255) != r->cat || (t.code & 255) != r->code || t.chan != r->chan || t.fname != r->fname) violation("insert-mixed", "insertion of %u %d %d %d %d %s %s was announced as %s", r->seq, r->type, r->cat, r->code, r->chan, r->fname.c_str(), r->fpath.c_str(), t.raw.c_str()); if(!t.read_ok || t.content != r->data) violation("insert-content", "insertion %u was announced with %zu bytes that differ from the %zu given", r->seq, t.content.size(), r->data.size()); } else failed++; }
  for(auto &t : w->f1->notes) if(!rq.count(t.fpath) && !(t.seq >= 900000 && t.seq < 901000) && !w->rx.byseq.count(t.seq)) violation("insert-invented", "announced and never inserted: %s", t.raw.c_str()); for(size_t i=0;i<(size_t)nw;i++){ size_t last = 0; for(auto r : reqs) if(r->worker == (int)i && by[r->fpath].size()){ size_t k = by[r->fpath][0] - &w->f1->notes[0]; if(k < last) violation("insert-order", "insertion %u was announced before an earlier one of the same user", r->seq); last = k; } }
  probe("inserted", ok); probe("insert_failed", failed); sample(strf("%zu insertions by %d users, %zu announced", reqs.size(), nw, ok)); clean_stop(n, 60*SEC, "at the end");
}
