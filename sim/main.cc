// Driver: zygote that preloads the node images and forks one child per seed.
#include "run.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <time.h>
#include <filesystem>
#include <sstream>
#include <algorithm>
namespace fs = std::filesystem;
static std::map<std::string, ScenFn>& scens(){ static auto *m = new std::map<std::string,ScenFn>; return *m; }
ScenReg::ScenReg(const char *n, ScenFn f){ scens()[n] = f; }
ScenFn find_scenario(const std::string& n){ auto it = scens().find(n); return it == scens().end() ? nullptr : it->second; }
static int outfd = -1; static bool finished = false; static std::string asan_report;
extern "C" { void __asan_set_error_report_callback(void (*)(const char*)) __attribute__((weak)); void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak)); void __sanitizer_set_report_fd(void*) __attribute__((weak)); 
const char *__asan_default_options(){ return "detect_leaks=0:detect_stack_use_after_return=0:max_malloc_fill_size=4096:malloc_fill_byte=190:max_free_fill_size=4096:free_fill_byte=221:abort_on_error=0:exitcode=77:allow_user_segv_handler=0:handle_abort=1:alloc_dealloc_mismatch=0:log_path=/dev/null:use_sigaltstack=1:quarantine_size_mb=16:malloc_context_size=6"; } }
static void wr(const std::string& s){ size_t o = 0; while(o < s.size()){ ssize_t n = write(outfd, s.data()+o, s.size()-o); if(n <= 0) break; o += n; } }
static std::string esc(std::string s){ for(auto &c : s) if(c == '\n' || c == '\r' || c == '\t') c = ' '; return s; }
static void emit(const char *how){
  if(finished) return; finished = true;
  std::ostringstream o;
  o << "seed " << RC.seed << "\nhash " << std::hex << run_hash() << "\nihash " << inter_hash() << std::dec << "\nend " << how << "\nsteps " << R.steps << "\nswitches " << R.switches << "\npreempts " << R.preempts << "\nevents " << R.events << "\nsimns " << g_now << "\n";
  for(auto &k : R.faults) o << "fault " << k.first << " " << k.second << "\n";
  for(auto &k : R.probes) o << "probe " << k.first << " " << k.second << "\n";
  for(auto s : run_states()) o << "state " << std::hex << s << std::dec << "\n";
  for(auto &s : RC.samples) o << "sample " << esc(s) << "\n";
  if(!RC.viol_class.empty()) o << "viol " << RC.viol_class << "\t" << esc(RC.viol_detail) << "\n";
  for(int s=0;s<NSTREAMS;s++) for(auto &t : RC.tape[s]) o << "tape " << s << " " << t.first << " " << t.second << "\n";
  o << "eor\n"; wr(o.str());
  if(RC.tracef) fflush(RC.tracef);
}
void finish_run(const char *how){ emit(how); _exit(0); }
static void on_asan(const char *rep){ asan_report = rep; }
static void on_death(){
  if(finished) return;
  std::string cls = "memory", fn = "?"; size_t k = asan_report.find("AddressSanitizer: ");
  if(k != std::string::npos){ size_t e = asan_report.find_first_of(" \n(", k + 18); cls = asan_report.substr(k+18, e-k-18); }
  // first frame inside the code under test
  std::istringstream is(asan_report); std::string l; int depth = 0; bool got = false; std::string first;
  while(std::getline(is, l)){ size_t p = l.find(" in "); if(l.find("    #") == 0 && p != std::string::npos){ depth++; size_t e = l.find(' ', p+4); std::string f = l.substr(p+4, e-p-4); std::string loc = e == std::string::npos ? "" : l.substr(e); if(first.empty()) first = f;
      if(!got && loc.find("/sim/") == std::string::npos && loc.find(".c:") != std::string::npos && loc.find("asan") == std::string::npos){ fn = f + esc(loc.substr(loc.rfind('/') == std::string::npos ? 0 : loc.rfind('/')+0)); got = true; } } else if(depth) break; }
  if(!got) fn = first;
  size_t c = fn.find(':'); std::string key = c == std::string::npos ? fn : fn.substr(0, c);
  RC.viol_class = "memory:" + cls + ":" + key; RC.viol_detail = "AddressSanitizer " + cls + " at " + fn + (cur && cur->proc ? " in " + cur->proc->name : "");
  if(g_verbose && RC.tracef) fprintf(RC.tracef, "%s\n", asan_report.c_str());
  emit("asan");
}
void load_images(const std::string& dir){
  std::vector<std::string> v; for(auto &e : fs::directory_iterator(dir)) if(e.path().extension() == ".so") v.push_back(e.path().string()); std::sort(v.begin(), v.end());
  for(auto &p : v){ std::string b = fs::path(p).stem().string(); size_t k = b.find('-'); std::string n = b.substr(0, k); void *h = dlopen(p.c_str(), RTLD_NOW|RTLD_LOCAL); if(!h){ fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3);} g_images[n].name = n; g_images[n].copies.push_back(h); }
}
static void child(const std::string& dir, ScenFn f){
  if(chdir(dir.c_str())){ perror(dir.c_str()); _exit(3);} 
  struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = rl.rlim_max = 512u<<20; setrlimit(RLIMIT_FSIZE, &rl);
  signal(SIGXFSZ, SIG_IGN); alarm(60);
  if(__asan_set_error_report_callback) __asan_set_error_report_callback(on_asan); if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  setenv("TZ", "UTC", 1); tzset();
  choices_init(RC.seed); g_epoch = 1768478400ull*SEC; // 2026-01-15 12:00:00 UTC
  sim_run([f]{ f(); }); _exit(4);
}
int main(int argc, char **argv){
  if(!getenv("NBSPSIM_NOASLR")){ personality(ADDR_NO_RANDOMIZE); setenv("NBSPSIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); execv(argv[0], argv); }
  std::string scen, images, scratch, out, replay, trace; u64 seed0 = 1, stride = 1, count = 1; double secs = 1e9; int maxviol = 5;
  for(int i=1;i<argc;i++){ std::string a = argv[i]; auto nx = [&]{ return std::string(argv[++i]); };
    if(a == "--scenario") scen = nx(); else if(a == "--images") images = nx(); else if(a == "--scratch") scratch = nx(); else if(a == "--out") out = nx(); else if(a == "--replay") replay = nx(); else if(a == "--trace") trace = nx();
    else if(a == "--seed0") seed0 = strtoull(nx().c_str(), 0, 10); else if(a == "--stride") stride = strtoull(nx().c_str(), 0, 10); else if(a == "--count") count = strtoull(nx().c_str(), 0, 10); else if(a == "--secs") secs = atof(nx().c_str()); else if(a == "--maxviol") maxviol = atoi(nx().c_str()); else if(a == "--list"){ for(auto &k : scens()) puts(k.first.c_str()); return 0; } }
  signal(SIGPIPE, SIG_IGN);
  load_images(images);
  g_cov = (u8*)mmap(nullptr, COVSZ, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  std::vector<std::map<u32,u64>> tapes;
  if(!replay.empty()){
    // replay file: lines "scenario X", "seed N", "tape s i v"; several "case" blocks may follow each other
    FILE *f = fopen(replay.c_str(), "r"); if(!f){ perror(replay.c_str()); return 3; } char l[4096]; RC.replay = true; 
    while(fgets(l, sizeof l, f)){ unsigned long long a,b,c; char s[256]; if(sscanf(l, "scenario %255s", s) == 1) scen = s; else if(sscanf(l, "seed %llu", &a) == 1) RC.seed = seed0 = a; else if(sscanf(l, "tape %llu %llu %llu", &a, &b, &c) == 3 && a < NSTREAMS) RC.tape[a][b] = c; } fclose(f); count = 1;
  }
  ScenFn fn = find_scenario(scen); if(!fn){ fprintf(stderr, "no scenario %s\n", scen.c_str()); return 3; }
  FILE *of = out.empty() ? stdout : fopen(out.c_str(), "w");
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0); u64 runs = 0; int viols = 0;
  for(u64 k=0;k<count;k++){
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); if((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec)/1e9 > secs) break;
    u64 seed = seed0 + k*stride; std::string dir = scratch + "/r" + std::to_string(getpid()); fs::create_directories(dir);
    int pp[2]; if(pipe(pp)) return 3; fcntl(pp[1], F_SETPIPE_SZ, 1<<20);
    pid_t pid = fork();
    if(pid == 0){ close(pp[0]); outfd = pp[1]; RC.seed = seed; RC.scenario = scen; if(!trace.empty()){ RC.tracef = fopen(trace.c_str(), "w"); g_verbose = RC.tracef != nullptr; } child(dir, fn); _exit(4); }
    close(pp[1]); std::string res; char b[65536]; ssize_t n; while((n = read(pp[0], b, sizeof b)) > 0) res.append(b, n); close(pp[0]);
    int st = 0; waitpid(pid, &st, 0); runs++;
    if(res.find("\neor\n") == std::string::npos){ res = "seed " + std::to_string(seed) + "\nend abnormal:" + std::to_string(st) + "\nabnormal " + std::to_string(st) + "\neor\n"; }
    bool v = res.find("\nviol ") != std::string::npos; if(v) viols++;
    if(!v && replay.empty()){ // drop the tape
      std::istringstream is(res); std::string l, o; while(std::getline(is, l)) if(l.compare(0, 5, "tape ")) o += l + "\n"; res = o; }
    fwrite(res.data(), 1, res.size(), of);
    std::error_code ec; fs::remove_all(dir, ec);
    if(viols >= maxviol) break;
  }
  u64 edges = 0; for(u64 i=0;i<COVSZ;i++) edges += g_cov[i];
  fprintf(of, "total runs %llu edges %llu\n", (unsigned long long)runs, (unsigned long long)edges);
  if(getenv("NBSPSIM_COVFILE")){ FILE *c = fopen(getenv("NBSPSIM_COVFILE"), "w"); fwrite(g_cov, 1, COVSZ, c); fclose(c); }
  fclose(of); return 0;
}
