#include "sim.h"
#include <sys/mman.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <dlfcn.h>
#include <setjmp.h>
#include <algorithm>
#include <math.h>
#include "run.h"
extern "C" {
void __sanitizer_start_switch_fiber(void **, const void *, size_t) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
}
const char *stream_names[NSTREAMS] = {"plan","sched","preempt","net","io","mem","fault","data"};
RunStats R; Knobs K; NetCfg N; OsPolicy OS; std::map<u32, std::string> g_rev_hosts;
u64 g_now = 0; u64 g_epoch = 0; bool g_verbose = false; bool g_violated = false;
Fiber *cur = nullptr;
RunCfg RC;

// ---------------------------------------------------------------- choices
static u64 smix(u64 &x){ u64 z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z>>30))*0xbf58476d1ce4e5b9ull; z = (z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static u64 rng[NSTREAMS]; static u32 idx[NSTREAMS];
static u64 raw(Stream s){ return smix(rng[s]); }
void choices_init(u64 seed){
  u64 x = seed*0x2545F4914F6CDD1Dull + 88172645463325252ull;
  for(int i=0;i<NSTREAMS;i++){ rng[i] = smix(x) ^ (u64)i*0xabcdef12345ull; smix(rng[i]); idx[i]=0; }
}
static u64 settle(Stream s, u64 v){
  u32 i = idx[s]++;
  if(RC.replay){ auto &t = RC.tape[s]; auto it = t.find(i); v = it==t.end() ? 0 : it->second; }
  else if(v) RC.tape[s][i] = v;
  return v;
}
u64 draw(Stream s, u64 n){
  if(n <= 1) return 0;
  u64 v = RC.replay ? 0 : raw(s) % n;
  v = settle(s, v);
  return v % n;
}
bool chance(Stream s, double p){
  if(p <= 0) return false;
  u64 v = RC.replay ? 0 : ((raw(s)>>11) * (1.0/9007199254740992.0) < p ? 1 : 0);
  return settle(s, v) != 0;
}
u64 draw_range(Stream s, u64 lo, u64 hi){ if(hi<=lo) return lo; return lo + draw(s, hi-lo+1); }

// ---------------------------------------------------------------- reporting
u64 fnv(const void *p, size_t n, u64 h){ const u8*b=(const u8*)p; for(size_t i=0;i<n;i++){ h^=b[i]; h*=1099511628211ull; } return h; }
std::string strf(const char *fmt, ...){ va_list ap; va_start(ap,fmt); char b[8192]; vsnprintf(b,sizeof b,fmt,ap); va_end(ap); return b; }
static u64 g_hash = 1469598103934665603ull, g_ihash = 1469598103934665603ull;
u64 run_hash(){ return g_hash; } u64 inter_hash(){ return g_ihash; }
void hash_ev(u64 a, u64 b){ g_hash = (g_hash ^ a)*1099511628211ull; g_hash = (g_hash ^ b ^ (g_hash>>29))*1099511628211ull; }
static std::set<u64> g_states; void state_mark(u64 h){ if(g_states.size() < 4000) g_states.insert(h); }
const std::set<u64>& run_states(){ return g_states; }
void probe(const char *n, u64 k){ R.probes[n]+=k; }
void fault_fired(const char *n, u64 k){ R.faults[n]+=k; hash_ev(0xfa, fnv(n, strlen(n))); tr("FAULT %s", n); }
void tr(const char *fmt, ...){
  if(!g_verbose) return;
  va_list ap; va_start(ap,fmt); char b[2048]; vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  fprintf(RC.tracef, "%12.6f %s#%d %s\n", g_now/1e9, cur ? (cur->proc? cur->proc->name.c_str() : "sim") : "-", cur?cur->id:-1, b);
}
void violation(const char *cls, const char *fmt, ...){
  va_list ap; va_start(ap,fmt); char b[4096]; vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  g_violated = true; tr("VIOLATION %s %s", cls, b);
  RC.viol_class = cls; RC.viol_detail = b; hash_ev(0xdead, fnv(cls, strlen(cls)));
  finish_run("violation");
}

// ---------------------------------------------------------------- events
struct Ev { std::function<void()> f; };
static std::map<std::pair<u64,u64>, Ev> evq; static u64 evseq = 0;
static std::map<u64, u64> evtime;
u64 at(u64 t, std::function<void()> f){ if(t < g_now) t = g_now; u64 s = ++evseq; evq[{t,s}] = Ev{std::move(f)}; evtime[s]=t; return s; }
void at_cancel(u64 id){ auto it = evtime.find(id); if(it==evtime.end()) return; evq.erase({it->second,id}); evtime.erase(it); }
static bool run_due(){
  bool any=false;
  while(!evq.empty() && evq.begin()->first.first <= g_now){
    auto it = evq.begin(); auto f = std::move(it->second.f); evtime.erase(it->first.second); evq.erase(it); R.events++; any=true; f();
  }
  return any;
}

// ---------------------------------------------------------------- fibers
static const size_t STK = 768*1024;
static std::vector<char*> stkpool; static std::vector<Fiber*> runq; static std::vector<Fiber*> all; static int nextid = 0;
static Fiber *dying = nullptr; static int slice = 0; static Fiber rootf;
extern "C" void sim_switch(void **save, void *load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");
static const void *main_bottom; static size_t main_size;
static void reap(){
  if(dying){ Fiber *d = dying; dying = nullptr; stkpool.push_back(d->stk); d->stk = nullptr; }
}
static void new_countdown(Fiber *f);
static void fiber_entry(){
  if(__sanitizer_finish_switch_fiber) { const void*b; size_t s; __sanitizer_finish_switch_fiber(nullptr, &b, &s); if(!main_bottom){ main_bottom=b; main_size=s; } }
  reap();
  void *r = cur->fn(); fiber_exit(r);
}
static void switch_to(Fiber *n){
  Fiber *o = cur; if(o == n) return;
  o->err = errno; bool dead = (o->st == Fiber::DONE);
  R.switches++; hash_ev(0x51, n->id); g_ihash = (g_ihash ^ (u64)(n->id*31+o->id))*1099511628211ull; g_ihash = (g_ihash ^ fnv(o->where, strlen(o->where)))*1099511628211ull;
  cur = n; slice = 0; n->edges = 0;
  if(dead) dying = o;
  if(__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(dead ? nullptr : &o->fake, n->stk ? n->stk : (const void*)main_bottom, n->stk ? n->stksz : main_size);
  sim_switch(&o->sp, n->sp);
  // back on o
  if(__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(o->fake, nullptr, nullptr);
  reap(); errno = o->err;
}
Fiber *spawn(Proc *p, const std::string& name, std::function<void*()> fn){
  Fiber *f = new Fiber; f->id = ++nextid; f->proc = p; f->name = name; f->fn = std::move(fn);
  if(stkpool.empty()){
    char *m = (char*)mmap(nullptr, STK+4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if(m == MAP_FAILED){ perror("mmap"); _exit(3); }
    mprotect(m, 4096, PROT_NONE); f->stk = m+4096;
  } else { f->stk = stkpool.back(); stkpool.pop_back(); if(__asan_unpoison_memory_region) __asan_unpoison_memory_region(f->stk, STK); }
  f->stksz = STK;
  u64 *s = (u64*)(f->stk + STK); s -= 2; *--s = 0; *--s = (u64)(void*)fiber_entry; for(int i=0;i<6;i++) *--s = 0;
  f->sp = s; all.push_back(f); runq.push_back(f); new_countdown(f);
  tr("spawn fiber %d %s", f->id, name.c_str());
  return f;
}
void make_runnable(Fiber *f){
  if(f->st != Fiber::BLOCKED) return;
  f->st = Fiber::RUNNABLE; runq.push_back(f);
  for(auto q : f->wqs) q->w.erase(std::remove(q->w.begin(), q->w.end(), f), q->w.end());
  f->wqs.clear();
  if(f->timer_seq){ at_cancel(f->timer_seq); f->timer_seq = 0; }
}
void wake_all(WaitQ& q){ while(!q.w.empty()) make_runnable(q.w.front()); }
void wake_one(WaitQ& q){ if(!q.w.empty()) make_runnable(q.w.front()); }
static Fiber *take_next(){
  for(;;){
    run_due();
    if(!runq.empty()) break;
    if(evq.empty()){ // total deadlock: nothing can ever run
      RC.deadlock = true; violation("deadlock", "no runnable task and no pending event: %s", blocked_summary().c_str());
    }
    g_now = evq.begin()->first.first;
    if(g_now > RC.time_cap){ finish_run("time-cap"); }
  }
  size_t i = 0;
  if(runq.size() > 1 && chance(S_SCHED, K.p_switch)) { i = draw(S_SCHED, runq.size()); }
  Fiber *f = runq[i]; runq.erase(runq.begin()+i); f->runs++;
  return f;
}
std::string blocked_summary(){
  std::string s; for(auto f : all) if(f->st != Fiber::DONE) s += strf("[%d %s/%s st=%d at %s] ", f->id, f->proc?f->proc->name.c_str():"-", f->name.c_str(), f->st, f->where);
  return s;
}
static void step(){
  if(++R.steps > RC.step_cap) { violation("livelock", "step cap %llu reached at t=%.3fs: %s", (unsigned long long)RC.step_cap, g_now/1e9, blocked_summary().c_str()); }
}
void yield_point(const char *op, u64 cost){
  if(!cur) return;
  step(); cur->where = op; g_now += cost; cur->edges = 0;
  run_due();
  if(cur->nopreempt) return;
  if(cur->debt){ u64 d = cur->debt; cur->debt = 0; const char *w = cur->where; cur->where = "database wait"; block_on(std::vector<WaitQ*>{}, g_now + d, false); cur->where = w; }
  bool sw = false; size_t i = 0;
  if(!runq.empty()){
    if(++slice > 64) { sw = true; }
    else if(chance(S_SCHED, K.p_switch)) { sw = true; i = draw(S_SCHED, runq.size()); }
  }
  if(sw){ Fiber *n = runq[i]; runq.erase(runq.begin()+i); n->runs++; runq.push_back(cur); switch_to(n); }
}
static void new_countdown(Fiber *f){
  f->countdown = 0; f->cd_real = true;
  if(K.p_preempt_on > 0 && f->proc && f->proc->node){
    // log-uniform
    if(chance(S_PREEMPT, K.p_preempt_on)){ u64 m = K.preempt_max; u64 hi = 2; u64 bits = 1 + draw(S_PREEMPT, (u64)(log2((double)m))); hi = 1ull<<bits; f->countdown = 1 + (i64)draw(S_PREEMPT, hi); }
    else { f->countdown = (i64)K.preempt_max; f->cd_real = false; }  // re-draw later (not a preemption)
  }
}
static void preempt(){
  Fiber *f = cur; int e = errno; bool real = f->cd_real;
  new_countdown(f);
  if(!real) return;
  step(); g_now += 1*US; run_due();
  u64 stall = draw(S_PREEMPT, 16);
  R.preempts++;
  if(stall == 15){ // descheduled for a while
    u64 ms = 1ull << draw(S_PREEMPT, 11);
    f->where = "preempt-stall"; block_on(std::vector<WaitQ*>{}, g_now + ms*100*US, false);
  } else if(!runq.empty()){
    size_t i = draw(S_SCHED, runq.size()); Fiber *n = runq[i]; runq.erase(runq.begin()+i); n->runs++; runq.push_back(f); f->where="preempt"; switch_to(n);
  }
  errno = e;
}
bool block_on(const std::vector<WaitQ*>& qs, u64 deadline, bool cp){
  Fiber *f = cur; step();
  if(cp) cancel_point();
  f->st = Fiber::BLOCKED; f->timedout = false; f->wake = deadline; f->in_cp = cp;
  for(auto q : qs){ q->w.push_back(f); f->wqs.push_back(q); }
  if(deadline != NEVER){ f->timer_seq = at(deadline, [f]{ f->timer_seq = 0; f->timedout = true; make_runnable(f); }); }
  Fiber *n = take_next();
  if(n != f) switch_to(n); 
  f->in_cp = false; f->rt_deadline = false;
  bool to = f->timedout;
  if(cp) cancel_point();
  return !to;
}
bool block_on(std::initializer_list<WaitQ*> qs, u64 d, bool cp){ return block_on(std::vector<WaitQ*>(qs), d, cp); }
void sim_sleep(u64 ns, bool cp){ cur->where = "sleep"; block_on(std::vector<WaitQ*>{}, g_now + ns, cp); }

struct ubuf { struct { long jb[8]; int saved; } b; void *pad[4]; };
[[noreturn]] void unwind_next(){
  if(cur->cleanup){ ubuf *u = (ubuf*)cur->cleanup; cur->cleanup = u->pad[0]; longjmp((struct __jmp_buf_tag*)u, 1); }
  fiber_exit((void*)-1);
}
void cancel_point(){
  if(cur && cur->cancel_pending && cur->cancel_ok && !cur->cancelling){ tr("cancelled at %s", cur->where); cur->cancelling = true; cur->cancel_ok = false; if(cur->held){ auto o = cur->held; cur->held = nullptr; file_unref(o); } unwind_next(); }
}
[[noreturn]] void fiber_exit(void *ret){
  Fiber *f = cur; f->ret = ret; f->st = Fiber::DONE; f->where = "done";
  wake_all(f->joinq);
  Fiber *n = take_next(); switch_to(n); abort();
}
void kill_fibers(Proc *p, Fiber *except){
  for(auto f : all) if(f->proc == p && f != except && f->st != Fiber::DONE){
    if(f == cur) continue;
    if(f->st == Fiber::BLOCKED){ make_runnable(f); }
    runq.erase(std::remove(runq.begin(), runq.end(), f), runq.end());
    f->st = Fiber::DONE; if(f->held){ auto o = f->held; f->held = nullptr; file_unref(o); } if(f->stk) { stkpool.push_back(f->stk); f->stk = nullptr; } wake_all(f->joinq);
  }
}
Fiber *fiber_by_id(int id){ for(auto f : all) if(f->id == id) return f; return nullptr; }
const std::vector<Fiber*>& all_fibers(){ return all; }

void sim_run(std::function<void()> m){
  cur = &rootf; rootf.id = 0; rootf.name = "root"; rootf.where = "root";
  Fiber *f = spawn(nullptr, "scenario", [m]{ m(); finish_run("done"); return (void*)0; });
  runq.clear(); rootf.st = Fiber::BLOCKED; f->runs++;
  switch_to(f);
}
void pick_sched_knobs(){
  static const double ps[] = {0, 0.02, 0.1, 0.3, 0.6};
  K.p_switch = ps[draw(S_PLAN, 5)];
  static const u64 pm[] = {0, 0, 40, 400, 4000, 40000};
  u64 i = draw(S_PLAN, 6); K.preempt_max = pm[i]; K.p_preempt_on = i >= 2 ? 0.7 : 0;
  K.p_spurious = draw(S_PLAN, 4) == 3 ? 0.05 : 0;
}

// ---------------------------------------------------------------- coverage callback
u8 *g_cov = nullptr; 
static const u64 EDGE_LIMIT = 400000000ull;
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc(){
  Fiber *f = cur; if(!f) return;
  Proc *p = f->proc; if(!p || !p->node) return;
  u64 pc = (u64)__builtin_return_address(0) - p->node->base;
  if(g_cov) g_cov[(pc ^ (pc>>20)) & (COVSZ-1)] = 1;
  f->edges++;
  if(f->countdown > 0 && --f->countdown == 0){ if(f->nopreempt) f->countdown = 1; else preempt(); }
  if(f->edges > EDGE_LIMIT) violation("cpu-livelock", "%s/%s spins without any system call after %s", p->name.c_str(), f->name.c_str(), f->where);
}
bool block_raw(u64 deadline){
  Fiber *f = cur; step();
  f->st = Fiber::BLOCKED; f->timedout = false; f->wake = deadline; f->in_cp = true;
  if(deadline != NEVER) f->timer_seq = at(deadline, [f]{ f->timer_seq = 0; f->timedout = true; make_runnable(f); });
  Fiber *n = take_next(); if(n != f) switch_to(n);
  f->in_cp = false; f->rt_deadline = false; return !f->timedout;
}
bool nth_fail(Proc *p, int cls, const char *what){ if(!p || !p->node || !(p->io.fail_class & cls)) return false; p->io.fail_seen++; if(p->io.fail_seen < p->io.fail_at || p->io.fail_seen >= p->io.fail_at + p->io.fail_run) return false; fault_fired(strf("nth_%s", what).c_str()); return true; }
