// libc / pthread surface seen by the real code: threads, time, memory, stdio, processes, misc.
#include <dlfcn.h>
#include "run.h"
#include <pthread.h>
#include <time.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <pwd.h>
#include <grp.h>
#include <getopt.h>
#include <setjmp.h>
#include <algorithm>
int real_fd_of(FileObj*); bool block_cp_wake(u64); void fork_push(void**); bool block_raw(u64);
void node_exit(Proc *p, int code); void thread_sigpipe();
extern std::function<void(Proc*, const char*)> g_op_hook;
#define P() (cur->proc)

// ---------------------------------------------------------------- pthread
struct Mx { int owner = 0; int count = 0; int type = 0; bool init = false; WaitQ q; };
struct Cd { std::vector<Fiber*> w; bool mono = false; std::map<Fiber*, WaitQ*> q; };
static std::map<const void*, Mx> mxs; static std::map<const void*, Cd> cds;
static std::map<const void*, int> mattr; static std::map<const void*, bool> cattr; static std::map<const void*, bool> tattr;
static std::map<unsigned, std::map<int, void*>> tls; static std::map<unsigned, void(*)(void*)> keys; static unsigned nkey = 0;
struct Rw { int w = 0; int r = 0; WaitQ q; }; static std::map<const void*, Rw> rws;
static bool io_on(Proc *p){ return p && p->node && p->io.on; }
static int mx_lock(Mx &m, bool tryl){
  if(m.owner == cur->id){ if(m.type == PTHREAD_MUTEX_RECURSIVE){ m.count++; return 0; } if(m.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; if(tryl) return EBUSY; probe("self_deadlock"); tr("SELF-DEADLOCK on mutex"); }
  if(tryl && m.owner) return EBUSY;
  while(m.owner){ if(m.owner != cur->id) probe("mutex_contended"); cur->where = "mutex"; block_on({&m.q}, NEVER, false); }
  m.owner = cur->id; m.count = 1; return 0;
}
static void mx_unlock(Mx &m){
  if(m.owner != cur->id){ probe(m.owner ? "unlock_not_owner" : "unlock_unlocked"); tr("unlock of a mutex not held"); }
  if(m.type == PTHREAD_MUTEX_RECURSIVE && m.owner == cur->id && --m.count > 0) return;
  m.owner = 0; m.count = 0; wake_one(m.q);
}
struct ubuf { struct { long jb[8]; int saved; } b; void *pad[4]; };
extern "C" {
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a){ Mx &x = mxs[m]; x = Mx(); x.init = true; if(a && mattr.count(a)) x.type = mattr[a]; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m){ auto it = mxs.find(m); if(it != mxs.end()){ if(it->second.owner){ probe("destroy_locked_mutex"); return EBUSY; } mxs.erase(it); } return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m){ yield_point("mutex_lock", 200); int r = mx_lock(mxs[m], false); return r; }
int sim_pthread_mutex_trylock(pthread_mutex_t *m){ yield_point("mutex_trylock", 200); return mx_lock(mxs[m], true); }
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec*){ return sim_pthread_mutex_lock(m); }
int sim_pthread_mutex_unlock(pthread_mutex_t *m){ mx_unlock(mxs[m]); yield_point("mutex_unlock", 200); return 0; }
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a){ mattr[a] = 0; return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *a){ mattr.erase(a); return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t){ mattr[a] = t; return 0; }
int sim_pthread_condattr_init(pthread_condattr_t *a){ cattr[a] = false; return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t *a){ cattr.erase(a); return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c){ cattr[a] = c == CLOCK_MONOTONIC; return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a){ Cd &x = cds[c]; x = Cd(); if(a && cattr.count(a)) x.mono = cattr[a]; return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c){ auto it = cds.find(c); if(it != cds.end()){ if(!it->second.w.empty()) probe("destroy_busy_cond"); else cds.erase(it); } return 0; }
int sim_pthread_cond_signal(pthread_cond_t *c){ yield_point("cond_signal", 200); Cd &x = cds[c]; if(!x.w.empty()){ size_t i = x.w.size() > 1 && chance(S_SCHED, K.p_switch) ? draw(S_SCHED, x.w.size()) : 0; Fiber *f = x.w[i]; x.w.erase(x.w.begin()+i); make_runnable(f); } return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c){ yield_point("cond_broadcast", 200); Cd &x = cds[c]; auto w = x.w; x.w.clear(); for(auto f : w) make_runnable(f); return 0; }
static int cond_wait_common(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline, bool rt, i64 rtabs){
  cancel_point(); yield_point("cond_wait", 200);
  Cd &x = cds[c]; Mx &mx = mxs[m];
  if(mx.owner != cur->id) probe("cond_wait_unlocked");
  // release the mutex
  mx.owner = 0; mx.count = 0; wake_one(mx.q);
  bool to = false, can = false;
  if(deadline <= g_now && deadline != NEVER){ to = true; yield_point("cond_wait_expired"); }
  else {
    x.w.push_back(cur); cur->where = "cond_wait"; cur->in_cp = true;
    if(K.p_spurious > 0 && chance(S_SCHED, K.p_spurious)){ u64 d = g_now + 1 + draw(S_SCHED, 10*MS); if(d < deadline){ fault_fired("spurious_wakeup"); deadline = d; rt = false; cur->rt_deadline = false; 
      Fiber *f = cur; f->in_cp = false; bool ok = block_on(std::vector<WaitQ*>{}, deadline, false); (void)ok; auto &v = cds[c].w; v.erase(std::remove(v.begin(), v.end(), f), v.end()); goto relock; } }
    cur->rt_deadline = rt; cur->rt_abs = rtabs;
    // block as a cancellation point that only wakes
    Fiber *f = cur; bool woken = block_cp_wake(deadline);
    auto &v = cds[c].w; auto it = std::find(v.begin(), v.end(), f); bool still = it != v.end(); if(still) v.erase(it);
    to = !woken && still;
    // a cancelled waiter must not consume a signal: leave it to another waiter (POSIX)
    can = cur->cancel_pending && cur->cancel_ok;
    if(can && !still && !v.empty()){ Fiber *o = v.front(); v.erase(v.begin()); make_runnable(o); probe("signal_passed_on"); }
  }
relock:
  mx_lock(mxs[m], false);
  if(can) cancel_point();
  hash_ev(0xc0, to); return to ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m){ return cond_wait_common(c, m, NEVER, false, 0); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts){
  if(ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L){ probe("timedwait_einval"); tr("timedwait EINVAL nsec=%ld", ts->tv_nsec); return EINVAL; }
  i64 a = (i64)ts->tv_sec*1000000000ll + ts->tv_nsec; bool mono = cds[c].mono; i64 d = mono ? a - 1000*(i64)SEC : a - (i64)g_epoch - P()->rt_off; 
  return cond_wait_common(c, m, d <= 0 ? 0 : (u64)d, !mono, a);
}
int sim_pthread_attr_init(pthread_attr_t *a){ tattr[a] = false; return 0; }
int sim_pthread_attr_destroy(pthread_attr_t *a){ tattr.erase(a); return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t *a, int s){ tattr[a] = s == PTHREAD_CREATE_DETACHED; return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t*, size_t){ return 0; }
int sim_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void*), void *arg){
  yield_point("pthread_create", 20*US); Proc *p = P();
  if(nth_fail(p, FC_THREAD, "thread")) return EAGAIN; if(io_on(p) && chance(S_MEM, p->io.p_thread)){ fault_fired("thread_eagain"); return EAGAIN; }
  Fiber *f = spawn(p, "thr", [fn, arg]{ return fn(arg); }); f->sigmask = cur->sigmask; f->detached = a && tattr.count(a) && tattr[a]; *t = (pthread_t)f->id; yield_point("pthread_created"); return 0;
}
int sim_pthread_join(pthread_t t, void **ret){
  yield_point("pthread_join"); Fiber *f = fiber_by_id((int)t); if(!f) return ESRCH; if(f->detached) return EINVAL;
  while(f->st != Fiber::DONE) { cur->where = "join"; block_on({&f->joinq}, NEVER, true); } 
  if(f->joined) probe("double_join"); f->joined = true; if(ret) *ret = f->ret; return 0; }
int sim_pthread_detach(pthread_t t){ Fiber *f = fiber_by_id((int)t); if(f) f->detached = true; return 0; }
pthread_t sim_pthread_self(){ return (pthread_t)cur->id; }
int sim_pthread_equal(pthread_t a, pthread_t b){ return a == b; }
void sim_pthread_exit(void *r){ cur->cancelling = true; cur->ret = r; unwind_next(); }
int sim_pthread_cancel(pthread_t t){
  yield_point("pthread_cancel"); Fiber *f = fiber_by_id((int)t); if(!f || f->st == Fiber::DONE) return ESRCH; f->cancel_pending = true; tr("cancel %d", f->id);
  if(f == cur) return 0; if(f->st == Fiber::BLOCKED && f->in_cp && f->cancel_ok) make_runnable(f); return 0; }
void sim_pthread_testcancel(){ yield_point("testcancel"); cancel_point(); }
int sim_pthread_setcancelstate(int s, int *o){ if(o) *o = cur->cancel_ok ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE; if(!cur->cancelling) cur->cancel_ok = s == PTHREAD_CANCEL_ENABLE; return 0; }
int sim_pthread_setcanceltype(int, int *o){ if(o) *o = PTHREAD_CANCEL_DEFERRED; return 0; }
void sim___pthread_register_cancel(void *b){ ((ubuf*)b)->pad[0] = cur->cleanup; cur->cleanup = b; }
void sim___pthread_unregister_cancel(void *b){ cur->cleanup = ((ubuf*)b)->pad[0]; }
void sim___pthread_unwind_next(void *){ unwind_next(); }
int sim_pthread_once(pthread_once_t *o, void (*f)()){ if(*o == PTHREAD_ONCE_INIT){ *o = (pthread_once_t)2; f(); } return 0; }
int sim_pthread_key_create(pthread_key_t *k, void (*d)(void*)){ *k = ++nkey; keys[*k] = d; return 0; }
int sim_pthread_setspecific(pthread_key_t k, const void *v){ tls[k][cur->id] = (void*)v; return 0; }
void *sim_pthread_getspecific(pthread_key_t k){ return tls[k][cur->id]; }
int sim_pthread_rwlock_init(void *r, void*){ rws[r] = Rw(); return 0; }
int sim_pthread_rwlock_destroy(void *r){ rws.erase(r); return 0; }
int sim_pthread_rwlock_rdlock(void *r){ yield_point("rdlock"); Rw &x = rws[r]; while(x.w) block_on({&x.q}, NEVER, false); x.r++; return 0; }
int sim_pthread_rwlock_wrlock(void *r){ yield_point("wrlock"); Rw &x = rws[r]; while(x.w || x.r) block_on({&x.q}, NEVER, false); x.w = 1; return 0; }
int sim_pthread_rwlock_unlock(void *r){ Rw &x = rws[r]; if(x.w) x.w = 0; else x.r--; wake_all(x.q); yield_point("rwunlock"); return 0; }
int sim_pthread_kill(pthread_t t, int){ Fiber *f = fiber_by_id((int)t); return f && f->st != Fiber::DONE ? 0 : ESRCH; }
// ---------------------------------------------------------------- signals
static u64 mask_of(const sigset_t *s){ u64 m = 0; for(int i=1;i<64;i++) if(sigismember(s, i) == 1) m |= 1ull<<i; return m; }
int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *o){
  if(o){ sigemptyset(o); for(int i=1;i<64;i++) if(cur->sigmask & (1ull<<i)) sigaddset(o, i); }
  if(s){ u64 m = mask_of(s); if(how == SIG_BLOCK) cur->sigmask |= m; else if(how == SIG_UNBLOCK) cur->sigmask &= ~m; else cur->sigmask = m; } return 0; }
int sim_sigprocmask(int how, const sigset_t *s, sigset_t *o){ return sim_pthread_sigmask(how, s, o); }
int sim_sigwait(const sigset_t *s, int *sig){
  Proc *p = P(); u64 m = mask_of(s); yield_point("sigwait");
  for(;;){ for(auto it = p->sigpend.begin(); it != p->sigpend.end(); ++it) if(m & (1ull<<*it)){ *sig = *it; p->sigpend.erase(it); return 0; } cur->where = "sigwait"; block_on({&p->sigq}, NEVER, true); } }
typedef void (*sigh)(int);
sigh sim_signal(int sig, sigh h){ if(h == SIG_IGN) P()->sigign.insert(sig); else P()->sigign.erase(sig); return SIG_DFL; }
int sim_sigaction(int sig, const struct sigaction *a, struct sigaction *o){ if(o) memset(o,0,sizeof *o); if(a) sim_signal(sig, a->sa_handler); return 0; }
int sim_kill(pid_t pid, int sig){ for(auto p : g_procs) if(p->pid == pid && p->alive){ if(sig) signal_proc(p, sig); return 0; } errno = ESRCH; return -1; }
int sim_raise(int sig){ signal_proc(P(), sig); return 0; }
unsigned sim_alarm(unsigned){ return 0; }
// ---------------------------------------------------------------- time
time_t sim_time(time_t *t){ time_t r = realtime_ns(P())/SEC; if(t) *t = r; return r; }
int sim_gettimeofday(struct timeval *tv, void*){ u64 n = realtime_ns(P()); tv->tv_sec = n/SEC; tv->tv_usec = (n%SEC)/1000; return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts){ u64 n = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? realtime_ns(P()) : g_now + 1000*SEC; ts->tv_sec = n/SEC; ts->tv_nsec = n%SEC; return 0; }
clock_t sim_clock(){ return g_now/1000; }
unsigned sim_sleep(unsigned s){ cancel_point(); sim_sleep((u64)s*SEC, true); return 0; }
int sim_usleep(unsigned us){ cancel_point(); sim_sleep((u64)us*US, true); return 0; }
int sim_nanosleep(const struct timespec *ts, struct timespec*){ if(ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L || ts->tv_sec < 0){ errno = EINVAL; return -1; } cancel_point(); sim_sleep((u64)ts->tv_sec*SEC + ts->tv_nsec, true); return 0; }
int sim_clock_nanosleep(clockid_t, int fl, const struct timespec *ts, struct timespec *r){ return fl ? 0 : (sim_nanosleep(ts, r) ? errno : 0); }
int sim_sched_yield(){ yield_point("sched_yield"); return 0; }
int sim_pause(){ for(;;) sim_sleep(3600*SEC, true); }
// ---------------------------------------------------------------- memory
struct HB { Proc *first; size_t second; void *ra; u64 n; };
static std::map<void*, HB>& heap(){ static auto *h = new std::map<void*, HB>; return *h; }
static u64 heap_n;
static bool mem_fail(){ Proc *p = P(); if(nth_fail(p, FC_MEM, "malloc")){ errno = ENOMEM; return true; } if(io_on(p) && chance(S_MEM, p->io.p_malloc)){ fault_fired("malloc_fail"); errno = ENOMEM; return true; } return false; }
static void hacct(void *q, size_t n, void *ra){ Proc *p = P(); if(!q || !p) return; heap()[q] = {p, n, ra, heap_n++}; p->heap_live += n; p->heap_blocks++; }
static void unacct(void *q){ auto it = heap().find(q); if(it == heap().end()) return; it->second.first->heap_live -= it->second.second; it->second.first->heap_blocks--; heap().erase(it); }
void *sim_malloc(size_t n){ if(mem_fail()) return nullptr; void *q = malloc(n); hacct(q, n, __builtin_return_address(0)); return q; }
void *sim_calloc(size_t a, size_t b){ if(mem_fail()) return nullptr; void *q = calloc(a, b); hacct(q, a*b, __builtin_return_address(0)); return q; }
void *sim_realloc(void *o, size_t n){ if(mem_fail()) return nullptr; if(o) unacct(o); void *q = realloc(o, n); hacct(q, n, __builtin_return_address(0)); return q; }
void sim_Tcl_Free(char *q){ // the daemon frees only strings this way; poison them so that a later use is the same in every run
  static void (*f)(char*); if(!f){ void *h = dlopen("libtcl8.6.so", RTLD_NOW|RTLD_NOLOAD); if(!h) h = dlopen("libtcl8.6.so.0", RTLD_NOW|RTLD_NOLOAD); if(h) f = (void(*)(char*))dlsym(h, "Tcl_Free"); if(!f) f = (void(*)(char*))dlsym(RTLD_DEFAULT, "Tcl_Free"); if(!f){ fprintf(stderr, "no Tcl_Free\n"); abort(); } }
  if(q) memset(q, '#', strlen(q)); f(q); }
void sim_free(void *q){ if(q) unacct(q); free(q); }
char *sim_strdup(const char *s){ if(mem_fail()) return nullptr; char *q = strdup(s); hacct(q, strlen(s)+1, __builtin_return_address(0)); return q; }
extern "C++" { extern "C" void __sanitizer_symbolize_pc(void*, const char*, char*, size_t) __attribute__((weak));
// where the blocks a process allocated since mark n and still holds come from
u64 heap_mark(){ return heap_n; }
std::map<std::string,int> heap_sites(Proc *p, u64 from, u64 to){ std::map<void*,int> c; for(auto &h : heap()) if(h.second.first == p && h.second.n >= from && h.second.n < to) c[h.second.ra]++; std::map<std::string,int> r; for(auto &k : c){ char b[256] = "?"; if(__sanitizer_symbolize_pc) __sanitizer_symbolize_pc(k.first, "%f %s:%l", b, sizeof b); std::string s = b; size_t q = s.rfind('/'), w = s.find(' '); if(q != std::string::npos && w != std::string::npos) s = s.substr(0, w + 1) + s.substr(q + 1); r[s] += k.second; } return r; } }
// ---------------------------------------------------------------- stdio
struct FLk { int owner = 0; int n = 0; WaitQ q; };
static std::map<FILE*, FLk> flk; static std::map<Proc*, std::set<FILE*>> files;
struct Ck { Proc *p; int fd; Proc *child = nullptr; bool pipe = false; };
static std::map<FILE*, Ck*> cks;
struct FLock { FILE *f; FLock(FILE *ff):f(ff){ if(!cks.count(f)){ f = nullptr; return; } FLk &l = flk[f]; if(l.owner == cur->id){ l.n++; return; } while(l.owner) block_on({&l.q}, NEVER, false); l.owner = cur->id; l.n = 1; } ~FLock(){ if(!f) return; FLk &l = flk[f]; if(--l.n == 0){ l.owner = 0; wake_all(l.q); } } };
static ssize_t ck_write(void *c, const char *b, size_t n){ Ck *k = (Ck*)c; if(!k->pipe){ NoPreempt np; bool co = cur->cancel_ok; cur->cancel_ok = false; ssize_t r = sim_write(k->fd, b, n); cur->cancel_ok = co; return r < 0 ? 0 : r; }
  size_t o = 0; while(o < n){ int cs = cur->cancel_ok; cur->cancel_ok = false; ssize_t r = sim_write(k->fd, b+o, n-o); cur->cancel_ok = cs; if(r <= 0) return o; o += r; } return n; }
static ssize_t ck_read(void *c, char *b, size_t n){ Ck *k = (Ck*)c; if(!k->pipe){ NoPreempt np; bool co = cur->cancel_ok; cur->cancel_ok = false; ssize_t r = sim_read(k->fd, b, n); cur->cancel_ok = co; return r; } int cs = cur->cancel_ok; cur->cancel_ok = false; ssize_t r = sim_read(k->fd, b, n); cur->cancel_ok = cs; return r; }
static int ck_seek(void *c, off64_t *o, int w){ Ck *k = (Ck*)c; if(k->pipe){ errno = ESPIPE; return -1; } int fd = real_fd_of(fd_get(k->p, k->fd)); off_t r = lseek(fd, *o, w); if(r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c){ Ck *k = (Ck*)c; NoPreempt np; return sim_close(k->fd); }
static FILE *mkfile(Proc *p, int fd, const char *mode, bool pipe, Proc *child){
  Ck *k = new Ck; k->p = p; k->fd = fd; k->pipe = pipe; k->child = child; cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; FILE *f = fopencookie(k, mode, io); cks[f] = k; files[p].insert(f); return f; }
FILE *sim_fopen(const char *path, const char *mode){
  int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY|O_CREAT|O_TRUNC : O_WRONLY|O_CREAT|O_APPEND; if(strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR; if(strchr(mode, 'x')) fl |= O_EXCL;
  bool co = cur->cancel_ok; cur->cancel_ok = false; int fd = sim_open(path, fl, 0644); cur->cancel_ok = co; if(fd < 0) return nullptr; return mkfile(P(), fd, mode, false, nullptr); }
FILE *sim_fdopen(int fd, const char *mode){ FileObj *o = fd_get(P(), fd); if(!o){ errno = EBADF; return nullptr; } return mkfile(P(), fd, mode, o->path.empty(), nullptr); }
FILE *sim_fopen64(const char *p, const char *m){ return sim_fopen(p, m); }
static FILE *std_cookie(FILE *f){ return f; }
static bool is_std(FILE *f){ return f == stdout || f == stderr; }
static void note_err(Proc *p, const std::string& s){ if(!p->errs++) p->first_err = s; p->last_err = s; }
static int std_out(FILE *f, const char *b, size_t n){ Proc *p = P(); if(f == stdout && fd_get(p, 1)) return sim_write(1, b, n) < 0 ? -1 : (int)n; std::string s(b, n); while(!s.empty() && s.back() == '\n') s.pop_back(); if(!s.empty()){ if(f == stderr) note_err(p, s); add_log(p, s); } return n; }
int sim_vfprintf(FILE *f, const char *fmt, va_list ap){ if(is_std(f)){ char *b = nullptr; int n = vasprintf(&b, fmt, ap); if(n >= 0){ n = std_out(f, b, n); free(b);} return n; } FLock l(f); return vfprintf(f, fmt, ap); }
int sim_fprintf(FILE *f, const char *fmt, ...){ va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim_printf(const char *fmt, ...){ va_list ap; va_start(ap, fmt); int r = sim_vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int sim_fputs(const char *s, FILE *f){ if(is_std(f)) return std_out(f, s, strlen(s)); FLock l(f); return fputs(s, f); }
int sim_puts(const char *s){ std::string t = s; t += '\n'; return std_out(stdout, t.data(), t.size()); }
int sim_fputc(int c, FILE *f){ char b = c; if(is_std(f)) return std_out(f, &b, 1) < 0 ? EOF : c; FLock l(f); return fputc(c, f); }
int sim_putc(int c, FILE *f){ return sim_fputc(c, f); }
int sim_putchar(int c){ return sim_fputc(c, stdout); }
size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *f){ if(is_std(f)) return std_out(f, (const char*)b, s*n) < 0 ? 0 : n; FLock l(f); return fwrite(b, s, n, f); }
int sim_fflush(FILE *f){ if(!f || is_std(f)) return 0; FLock l(f); return fflush(f); }
static int do_fclose(FILE *f){ struct NC { bool o = cur->cancel_ok; NC(){ cur->cancel_ok = false; } ~NC(){ cur->cancel_ok = o; } } nc; auto it = cks.find(f); if(it == cks.end()) return is_std(f) ? 0 : fclose(f); Ck *k = it->second; int r; { FLock l(f); r = fclose(f); l.f = nullptr; } files[k->p].erase(f); cks.erase(f); flk.erase(f); return r; }
int sim_fclose(FILE *f){ return do_fclose(f); }
int sim_fileno(FILE *f){ auto it = cks.find(f); if(it == cks.end()) return fileno(f); return it->second->fd; }
FILE *sim_popen(const char *cmd, const char *mode){
  Proc *p = P(); yield_point("popen", 200*US); tr("popen %s", cmd);
  if(nth_fail(p, FC_THREAD, "popen")){ errno = EAGAIN; return nullptr; } if(io_on(p) && chance(S_IO, p->io.p_thread)){ fault_fired("popen_fail"); errno = EAGAIN; return nullptr; }
  if(fd_full(p, 2)){ fault_fired("fd_limit"); errno = EMFILE; return nullptr; }
  Proc *c = new_proc(std::string("sh:") + cmd, p->ip); int cfd, pfd; bool w = mode[0] == 'w';
  if(w) sim_pipe_pair(c, &cfd, p, &pfd, g_popen_cap); else sim_pipe_pair(p, &pfd, c, &cfd);  fd_get(p, pfd)->label = cmd;
  std::string s = cmd; spawn(c, "child", [c, s, cfd]() -> void* { void *r = g_popen_main ? g_popen_main(c, s, cfd) : nullptr; end_proc(c, (int)(long)r, false); return nullptr; });
  FILE *f = mkfile(p, pfd, w ? "w" : "r", true, c); p->popen_cmd[f] = s; return f; }
int sim_pclose(FILE *f){ auto it = cks.find(f); if(it == cks.end()){ errno = EINVAL; return -1; } Proc *c = it->second->child; do_fclose(f); if(!c) return -1; while(c->alive){ cur->where = "pclose"; block_on({&c->exitq}, NEVER, false); } return c->exit_code << 8; }
} // extern C
void flush_files(Proc *p){ auto s = files[p]; for(auto f : s){ if(cks[f]->pipe){ FLock l(f); fflush(f); } else fflush(f); } }
bool block_cp_wake(u64 deadline){
  // like block_on(...,cancelpoint) but a cancel only wakes: the caller must re-acquire its mutex first
  Fiber *f = cur; bool ok = f->cancel_ok; 
  struct Sv { } ; (void)ok;
  return block_raw(deadline);
}
extern "C" {
// ---------------------------------------------------------------- logging
void sim_openlog(const char*, int, int){} void sim_closelog(){}
void sim_vsyslog(int pr, const char *fmt, va_list ap){ 
  yield_point("syslog", 5*US); cancel_point();
  std::string f = fmt; size_t k = f.find("%m"); if(k != std::string::npos) f.replace(k, 2, strerror(errno));
  char *b = nullptr; if(vasprintf(&b, f.c_str(), ap) >= 0){ if((pr & 7) <= 3) note_err(P(), b); add_log(P(), b); free(b);} }
void sim_syslog(int pr, const char *fmt, ...){ va_list ap; va_start(ap, fmt); sim_vsyslog(pr, fmt, ap); va_end(ap); }
static void vw(const char *fmt, va_list ap, bool e, int en){ std::string s; if(fmt){ char *b; if(vasprintf(&b, fmt, ap) >= 0){ s = b; free(b);} } if(e){ s += ": "; s += strerror(en);} note_err(P(), s); add_log(P(), s); }
void sim_warn(const char *fmt, ...){ int e = errno; va_list ap; va_start(ap, fmt); vw(fmt, ap, true, e); va_end(ap); }
void sim_warnx(const char *fmt, ...){ va_list ap; va_start(ap, fmt); vw(fmt, ap, false, 0); va_end(ap); }
void sim_vwarn(const char *fmt, va_list ap){ int e = errno; vw(fmt, ap, true, e); } void sim_vwarnx(const char *fmt, va_list ap){ vw(fmt, ap, false, 0); }
void sim_exit(int c){ node_exit(P(), c); }
void sim_err(int c, const char *fmt, ...){ int e = errno; va_list ap; va_start(ap, fmt); vw(fmt, ap, true, e); va_end(ap); sim_exit(c); }
void sim_errx(int c, const char *fmt, ...){ va_list ap; va_start(ap, fmt); vw(fmt, ap, false, 0); va_end(ap); sim_exit(c); }
void sim_verr(int c, const char *fmt, va_list ap){ int e = errno; vw(fmt, ap, true, e); sim_exit(c); } void sim_verrx(int c, const char *fmt, va_list ap){ vw(fmt, ap, false, 0); sim_exit(c); }
void sim_perror(const char *s){ add_log(P(), strf("%s: %s", s, strerror(errno))); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn){
  const char *b = strrchr(f, '/'); add_log(P(), strf("assertion failed %s:%u %s", b ? b+1 : f, l, e));
  violation("abort", "assertion `%s' failed in %s (%s) of %s", e, fn, b ? b+1 : f, P()->name.c_str()); }
void sim_abort(){ violation("abort", "%s called abort() after %s", P()->name.c_str(), cur->where); }
// ---------------------------------------------------------------- processes
int sim_atexit(void (*f)()){ P()->node->atexits.push_back(f); return 0; }
pid_t sim_getpid(){ return cur->in_child ? cur->child_pid : P()->pid; } pid_t sim_getppid(){ return 1; } 
int sim_daemon(int, int){ return 0; } int sim_setuid(uid_t){ return 0; } int sim_setgid(gid_t){ return 0; } int sim_setgroups(size_t, const gid_t*){ return 0; } int sim_initgroups(const char*, gid_t){ return 0; } mode_t sim_umask(mode_t){ return 022; } pid_t sim_setsid(){ return P()->pid; }
uid_t sim_getuid(){ return 0; } uid_t sim_geteuid(){ return 0; }
struct passwd *sim_getpwnam(const char*){ return nullptr; } struct group *sim_getgrnam(const char *n){ static struct group g; static char nm[] = "root"; static char *mem[] = {nullptr}; if(strcmp(n, "root")) return nullptr; g.gr_name = nm; g.gr_gid = 0; g.gr_mem = mem; return &g; }
int sim_gethostname(char *b, size_t n){ snprintf(b, n, "simhost"); return 0; }
int sim_getloadavg(double *l, int n){ for(int i=0;i<n;i++) l[i] = OS.load; return n; }
int sim_system(const char *c){ yield_point("system"); if(g_exec_hook) g_exec_hook(P(), c); return 0; }
// fork(): vfork semantics. The child runs on the parent's stack until it execs or exits, then the
// parent resumes at the same place. (The only fork user in the daemon forks twice and execs.)
int sim_fork_enter(void **regs){ // returns child's 0; records the frame
  Fiber *f = cur; yield_point("fork", 100*US); if(!f->in_child && io_on(P()) && chance(S_IO, P()->io.p_thread)){ fault_fired("fork_fail"); errno = EAGAIN; return -1; } fork_push(regs); f->in_child = true; f->child_pid = 5000 + (++f->child_depth); f->nopreempt++; return 0; }
void sim_fork_resume(void **regs, long val) __attribute__((noreturn));
int sim_fork();
asm(R"(
.text
.globl sim_fork
.type sim_fork,@function
sim_fork:
  subq $72, %rsp
  movq %rbx, 0(%rsp)
  movq %rbp, 8(%rsp)
  movq %r12, 16(%rsp)
  movq %r13, 24(%rsp)
  movq %r14, 32(%rsp)
  movq %r15, 40(%rsp)
  leaq 72(%rsp), %rax
  movq %rax, 48(%rsp)
  movq 72(%rsp), %rax
  movq %rax, 56(%rsp)
  movq %rsp, %rdi
  call sim_fork_enter
  addq $72, %rsp
  ret
.size sim_fork,.-sim_fork
.globl sim_fork_resume
.type sim_fork_resume,@function
sim_fork_resume:
  movq 0(%rdi), %rbx
  movq 8(%rdi), %rbp
  movq 16(%rdi), %r12
  movq 24(%rdi), %r13
  movq 32(%rdi), %r14
  movq 40(%rdi), %r15
  movq 48(%rdi), %rsp
  movq 56(%rdi), %rcx
  movq %rsi, %rax
  movq %rcx, (%rsp)
  ret
.size sim_fork_resume,.-sim_fork_resume
)");
int sim_vfork() __attribute__((alias("sim_fork_alias")));
int sim_fork_alias(){ return -1; }
} // extern C
static std::map<Fiber*, std::vector<std::vector<void*>>> forkst; static std::map<int,int> childstat;
void fork_push(void **r){ forkst[cur].push_back(std::vector<void*>(r, r+8)); }
static void child_end(int code, bool exec_ok){
  Fiber *f = cur; auto &st = forkst[f]; std::vector<void*> r = st.back(); st.pop_back(); int pid = 5000 + (f->child_depth - 0); static int uniq = 6000; pid = ++uniq; childstat[pid] = code << 8; (void)exec_ok;
  if(st.empty()) f->in_child = false; f->nopreempt--; void *buf[8]; for(int i=0;i<8;i++) buf[i] = r[i]; sim_fork_resume(buf, pid); }
extern "C" {
void sim__exit(int c){ if(cur->in_child) child_end(c, false); end_proc(P(), c, false); cur->cleanup = nullptr; fiber_exit(nullptr); }
int sim_execl(const char *path, const char *, ...){ tr("execl %s", path); if(g_exec_hook) g_exec_hook(P(), path); if(cur->in_child) child_end(0, true); return -1; }
int sim_execv(const char *path, char *const*){ return sim_execl(path, path); } int sim_execvp(const char *path, char *const*){ return sim_execl(path, path); } int sim_execlp(const char *path, const char*, ...){ return sim_execl(path, path); }
pid_t sim_waitpid(pid_t pid, int *st, int){ auto it = childstat.find(pid); if(it == childstat.end()){ errno = ECHILD; return -1; } if(st) *st = it->second; childstat.erase(it); return pid; }
pid_t sim_wait(int *st){ if(childstat.empty()){ errno = ECHILD; return -1; } return sim_waitpid(childstat.begin()->first, st, 0); }

// ---------------------------------------------------------------- names and access control
static std::map<std::string, u32>& hosts(){ static auto *h = new std::map<std::string,u32>; return *h; }
int sim_getaddrinfo(const char *host, const char *svc, const struct addrinfo *h, struct addrinfo **res){
  yield_point("getaddrinfo", 100*US); Proc *p = P(); if(nth_fail(p, FC_SOCK, "dns")) return EAI_AGAIN; if(io_on(p) && chance(S_IO, p->io.p_sock)){ fault_fired("dns_fail"); return EAI_AGAIN; }
  u32 ip = 0; struct in_addr a; if(!host) ip = 0; else if(inet_aton(host, &a)) ip = ntohl(a.s_addr); else { auto it = hosts().find(host); if(it == hosts().end()) return EAI_NONAME; ip = it->second; }
  char *b = (char*)calloc(1, sizeof(struct addrinfo) + sizeof(struct sockaddr_in)); auto ai = (struct addrinfo*)b; auto in = (struct sockaddr_in*)(b + sizeof *ai);
  in->sin_family = AF_INET; in->sin_port = htons(svc ? atoi(svc) : 0); in->sin_addr.s_addr = htonl(ip); ai->ai_family = AF_INET; ai->ai_socktype = h ? h->ai_socktype : SOCK_STREAM; ai->ai_addrlen = sizeof *in; ai->ai_addr = (struct sockaddr*)in; *res = ai; hacct(b, 64, __builtin_return_address(0)); return 0; }
void sim_freeaddrinfo(struct addrinfo *r){ sim_free(r); }
const char *sim_gai_strerror(int){ return "name resolution failure"; }
struct hostent *sim_gethostbyaddr(const void *a, socklen_t, int){ yield_point("gethostbyaddr", 2*MS); static struct hostent h; static std::string nm; static char *none[1]; auto it = g_rev_hosts.find(ntohl(((const struct in_addr*)a)->s_addr)); if(it == g_rev_hosts.end()) return nullptr; nm = it->second; h.h_name = &nm[0]; h.h_aliases = none; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = none; return &h; }
struct hostent *sim_gethostbyname(const char*){ return nullptr; }
int sim_getnameinfo(const struct sockaddr *sa, socklen_t, char *h, socklen_t hl, char *s, socklen_t sl, int){ auto in = (const struct sockaddr_in*)sa; if(h) snprintf(h, hl, "%s", ipstr(ntohl(in->sin_addr.s_addr)).c_str()); if(s) snprintf(s, sl, "%d", ntohs(in->sin_port)); return 0; }
static std::map<void*, int> reqfd;
void *sim_request_init(void *req, ...){ va_list ap; va_start(ap, req); for(int i=0;i<8;i++){ int k = va_arg(ap, int); if(k == 0) break; if(k == 1){ reqfd[req] = va_arg(ap, int); } else (void)va_arg(ap, void*); } va_end(ap); return req; }
void sim_sock_host(void*){} void sim_fromhost(void*){}
int sim_hosts_access(void *req){ yield_point("hosts_access", 50*US); struct sockaddr_in in; socklen_t l = sizeof in; auto it = reqfd.find(req); if(it == reqfd.end()) return 1; extern int sim_getpeername(int, struct sockaddr*, socklen_t*); int e = errno; if(sim_getpeername(it->second, (struct sockaddr*)&in, &l)){ errno = e; return 1; } return OS.deny.count(ntohl(in.sin_addr.s_addr)) ? 0 : 1; }
void sim_add_host(const char *n, u32 ip){ hosts()[n] = ip; }
}
// The key comparison functions of the daemon run inside a database call, which is one atomic step.
#include <db.h>
typedef int (*btcmp)(DB*, const DBT*, const DBT*);
static std::map<DB*, btcmp> g_btcmp; static std::map<DB*, int (*)(DB*, btcmp)> g_set_btcmp;
static int atomic_btcmp(DB *d, const DBT *a, const DBT *b){ NoPreempt np; return g_btcmp[d](d, a, b); }
static int atomic_set_btcmp(DB *d, btcmp f){ g_btcmp[d] = f; return g_set_btcmp[d](d, atomic_btcmp); }
// Waiting inside the database library (for a free page of its cache) is charged to the thread at its next step.
static int db_yield(u_long s, u_long us){ if(cur) cur->debt += s*SEC + std::max<u64>(us, 1)*US; return 0; }
static int (*g_db_open)(DB*, DB_TXN*, const char*, const char*, DBTYPE, u_int32_t, int); static int (*g_env_open)(DB_ENV*, const char*, u_int32_t, int);
static int failing_db_open(DB *d, DB_TXN *t, const char *f, const char *n, DBTYPE y, u_int32_t fl, int m){ if(nth_fail(cur ? P() : nullptr, FC_DB, "db_open")) return ENOSPC; return g_db_open(d, t, f, n, y, fl, m); }
static int failing_env_open(DB_ENV *e, const char *h, u_int32_t fl, int m){ if(nth_fail(cur ? P() : nullptr, FC_DB, "db_env_open")) return ENOSPC; return g_env_open(e, h, fl, m); }
extern "C" int sim_db_env_create(DB_ENV **e, u_int32_t fl){ if(nth_fail(cur ? P() : nullptr, FC_DB, "db_env_create")) return ENOMEM; int r = db_env_create(e, fl); if(r == 0){ g_env_open = (*e)->open; (*e)->open = failing_env_open; } return r; }
extern "C" int sim_db_create(DB **d, DB_ENV *e, u_int32_t fl){ static bool once; if(!once){ once = true; db_env_set_func_yield(db_yield); } if(nth_fail(cur ? P() : nullptr, FC_DB, "db_create")) return ENOMEM; int r = db_create(d, e, fl); if(r == 0){ g_db_open = (*d)->open; (*d)->open = failing_db_open; g_set_btcmp[*d] = (*d)->set_bt_compare; (*d)->set_bt_compare = atomic_set_btcmp; } return r; }
