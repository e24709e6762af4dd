#pragma once
#include "rx.h"
// Traffic generators shared by the scenarios.
struct FeedOpt { int nch = 1, nprod = 5; size_t maxbody = 9000; bool cuts = false, aborts = false; u64 gapmax = 0, pause = 0; bool allowz = true; int order_gap = 0; };
struct Feeder { RxModel& rx; u32 *sbn; u32& seq; bool cuts, aborts; size_t maxbody; u64 gap; int nprod; };
void recv_conf(Conf& c, RxOpts& o);
void run_feed(RxModel& rx, int nch, int nprod, size_t maxbody, bool cuts, bool aborts);
// persistent feed state (sequence numbers continue over daemon restarts)
struct Feed { RxModel *rx; u32 sbn[16]; u32 seq = 1000; Feed(RxModel *r):rx(r){ for(auto &x : sbn) x = 100; }
  Prod make(int chan, size_t maxbody, bool allowz = true); void send(Prod p, u64 gap = 100*US, bool model = true);      // one product, all frames
  void some(int n, int nch, size_t maxbody, u64 gapmax); };                                   // n products on random channels, sequentially
