#include "feed.h"
// ---- reception with loss, duplication, reordering, cut-off and aborted transmissions on several channels
void recv_conf(Conf& c, RxOpts& o){
  static const char *pat[] = {"", "kwbc,!sxus20", ".*", "[a-z]+_(ft|no)", "tjsj_.*,koun"};
  if(draw(S_PLAN, 3) == 2){ o.savefmt = 1; c["spoolsavefmt"] = "1"; }
  if(draw(S_PLAN, 2)){ o.savez_set = true; o.savez = pat[draw(S_PLAN, 5)]; c["savezacceptpatt"] = o.savez; }
  if(draw(S_PLAN, 4) == 3){ o.accept_set = true; o.accept = pat[1+draw(S_PLAN, 4)]; c["acceptpatt"] = o.accept; }
  static const char *mb[] = {"8192","1024","65536"}; c["memfileminsize"] = mb[draw(S_PLAN, 3)]; static const char *bs[] = {"1024","512","4096"}; c["memfileblocksize"] = bs[draw(S_PLAN, 3)];
}
static void feed_channel(Feeder f, int chan){
  for(int i=0;i<f.nprod;i++){
    auto timing = [&]{ std::string t = sbn_frame(++f.sbn[chan], draw(S_PLAN, 2) ? 5 : 10, std::string(32, 's'), chan); f.rx.meta[t] = {-1, -1, false, false, false}; inject_frame(chan, t); probe("timing_frame"); sim_sleep(50*US, false); };
    if(draw(S_PLAN, 6) == 5) timing();
    Prod p = rand_prod(f.seq++, chan, f.maxbody); prod_build(p, f.sbn[chan]); f.rx.add(p);
    size_t cut = p.frames.size(); if(f.cuts && draw(S_FAULT, 6) == 5){ cut = 1 + draw(S_FAULT, p.frames.size()); if(cut < p.frames.size()) fault_fired("sender_cut_off"); }
    size_t ab = ~0ul - 1; if(f.aborts && draw(S_FAULT, 10) == 9) ab = draw(S_FAULT, p.frames.size());
    for(size_t k=0;k<cut;k++){
      if(k == ab + 1){ std::string a = rx_abort_frame(p, ++f.sbn[chan], draw(S_FAULT, 2) ? 32 : 8); f.rx.abort_frame(a, p.seq); inject_frame(chan, a); fault_fired("sender_abort"); break; }
      if(draw(S_PLAN, 60) == 59) timing();
      inject_frame(chan, p.frames[k]); sim_sleep(20*US + (f.gap ? draw(S_PLAN, f.gap) : 0), false); }
    if(draw(S_PLAN, 8) == 7) sim_sleep(draw(S_PLAN, 3*SEC), false);
  }
}
void run_feed(RxModel& rx, int nch, int nprod, size_t maxbody, bool cuts, bool aborts){
  static u32 sbn[16]; static u32 seq; static bool once = false; if(!once) for(auto &x : sbn) x = draw(S_PLAN, 2) ? 0xfffffff0u - draw(S_PLAN, 40) : draw(S_PLAN, 50); if(!once) seq = draw(S_PLAN, 4) == 3 ? 0x7ffffff0u : 1000; once = true;
  static const u64 gaps[] = {0, 500*US, 5*MS, 80*MS}; std::vector<Fiber*> fs; int left = nch; 
  for(int ch=0; ch<nch; ch++){ u64 gap = gaps[draw(S_PLAN, 4)]; Feeder f{rx, sbn, seq, cuts, aborts, maxbody, gap, nprod}; spawn(cur->proc, strf("feed%d", ch), [=,&left]{ feed_channel(f, ch); left--; return (void*)0; }); }
  while(left) sim_sleep(50*MS, false);
}
// ---- simple sequential feed
Prod Feed::make(int chan, size_t maxbody, bool z){ Prod p = rand_prod(seq++, chan, maxbody, z); prod_build(p, sbn[chan]); return p; }
void Feed::send(Prod p, u64 gap, bool model){ if(model) rx->add(p); for(auto &f : p.frames){ inject_frame(p.chan, f); sim_sleep(20*US + (gap ? draw(S_PLAN, gap) : 0), false); } }
void Feed::some(int n, int nch, size_t maxbody, u64 gapmax){ for(int i=0;i<n;i++){ send(make(draw(S_PLAN, nch), maxbody), 300*US); if(gapmax) sim_sleep(draw(S_PLAN, gapmax), false); } }
