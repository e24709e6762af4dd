#include "cli.h"
// The access filter (a Tcl script the server runs for each product and client), admission control and the limit of clients (C26).
struct Rule { int field, mod, res; std::string who, key; int val; };   // if field % mod == res (and the client is `who`) then allow(key) = val
struct Rules { int m0 = 0, r0 = 0; std::vector<Rule> r; int fail = 0; };                // m0 = 0: no default given
static long field(const Note& n, int f){ return f == 0 ? (long)n.seq : f == 1 ? n.type : f == 2 ? n.cat : f == 3 ? n.code : f == 4 ? n.chan : f == 5 ? (long)n.fname.size() : (long)n.fpath.size(); }
static std::string script(const Rules& R, bool broken){
  std::string s = "set output_status 1\nif {$command == 2} {set output_status 0; return 0}\nif {$command == 1} {access_main $input; set output_status 0; return 0}\n";
  if(broken) return s + (R.m0 & 1 ? "return 1\n" : "no_such_command\n");
  s += "proc access_main {input} {\n global allow serverinfo\n if {[array exists allow]} {array unset allow}\n foreach v $input {lappend f $v}\n for {set i 5} {$i < 7} {incr i} {lset f $i [string length [lindex $f $i]]}\n";
  if(R.fail) s += strf(" if {[lindex $f 0] %% %d == 3} {error {a product that upsets the filter}}\n", R.fail);
  if(R.m0) s += strf(" set allow(0) [expr {[lindex $f 0] %% %d < %d}]\n", R.m0, R.r0);
  for(auto &r : R.r){ s += strf(" if {[lindex $f %d] %% %d == %d", r.field, r.mod, r.res); if(!r.who.empty()) s += isdigit(r.who[0]) ? " && $serverinfo(clientip) eq {" + r.who + "}" : " && $serverinfo(clientname) eq {" + r.who + "}"; s += "} {set allow(" + r.key + strf(") %d}\n", r.val); }
  return s + "}\nset output_status 0\n"; }
static bool allowed(const Rules& R, const Note& n, const std::string& ip, const std::string& name){
  if(R.fail && n.seq % R.fail == 3) return false; std::map<std::string, int> a; if(R.m0) a["0"] = (int)(n.seq % R.m0) < R.r0;
  for(auto &r : R.r) if(field(n, r.field) % r.mod == r.res && (r.who.empty() || r.who == ip || r.who == name)) a[r.key] = r.val;
  if(!name.empty() && a.count(name)) return a[name]; if(a.count(ip)) return a[ip]; return a.count("0") ? a["0"] : 0; }
static bool fits(const std::string& kind, const std::vector<Got>& got, const std::vector<Note>& ref0, u64 from){
  std::vector<Note> ref; for(auto &n : ref0) if(kind != "EMWIN" || emwin_pass(n.seq)) ref.push_back(n);
  auto eq = [&](const Note& n, const Got& g){ if(kind != "EMWIN") return n.seq == g.seq; std::string a = emwin_name(n.seq), b = g.name; for(auto &c : a) c = tolower(c); for(auto &c : b) c = tolower(c); return a == b; };
  size_t first = ref.size(); for(size_t i=0;i<ref.size();i++) if(ref[i].t >= from){ first = i; break; }
  if(got.size() > ref.size()) return false; size_t i0 = ref.size() - got.size(); if(i0 > first) return false;
  for(size_t k=0;k<got.size();k++) if(!eq(ref[i0+k], got[k])) return false; return true; }
SCENARIO(access){
  pick_sched_knobs(); net_knobs_lossless(); install_pipe_filters();
  Conf c("n0"); c["filterlist"] = "f1"; auto f1 = g_pf["f1"] = new PipeFilter; RxModel rx; bool emw = draw(S_PLAN, 2); server_conf(c, emw ? 7 : 3);
  c["netfilter_enable"] = "1"; c["netfilter"] = "n0/netfilter.tcl"; static const char *qt[] = {"10000", "500", "50"}; c["client_queue_read_timeout_ms"] = qt[draw(S_PLAN, 3)];
  int nc = 1 + draw(S_PLAN, 4); bool limit = draw(S_PLAN, 3) == 2; if(limit) c["server_maxclients"] = strf("%d", nc);
  std::vector<std::string> ips, names, keys; for(int i=0;i<nc;i++){ ips.push_back(strf("10.0.1.%d", i + 1)); names.push_back(draw(S_PLAN, 2) ? strf("host%d.example.net", i) : ""); keys.push_back(ips[i]); if(!names[i].empty()){ g_rev_hosts[0x0A000101 + i] = names[i]; keys.push_back(names[i]); } } keys.push_back("10.0.1.99"); keys.push_back("0");
  auto rules = [&]{ Rules R; if(draw(S_PLAN, 4) != 3){ R.m0 = 2 + draw(S_PLAN, 3); R.r0 = 1 + draw(S_PLAN, R.m0); } int k = draw(S_PLAN, 7);
    for(int i=0;i<k;i++){ Rule r; r.field = draw(S_PLAN, 7); r.mod = 1 + draw(S_PLAN, 4); r.res = draw(S_PLAN, r.mod); r.key = keys[draw(S_PLAN, keys.size())]; r.val = 1 - (int)draw(S_PLAN, 2); if(draw(S_PLAN, 3) == 2) r.who = keys[draw(S_PLAN, keys.size() - 1)]; R.r.push_back(r); }
    if(draw(S_PLAN, 3) == 2) R.fail = 5 + draw(S_PLAN, 6); return R; };
  Rules v0 = rules(), v1 = v0; std::string sf = "n0/netfilter.tcl"; mkdir("n0", 0755); spew(sf, script(v0, false));
  Proc *n = boot(c); rx.install(n); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  if(draw(S_PLAN, 2)){ n->io.on = true; n->io.p_tcp_short = 0.3; } if(draw(S_PLAN, 4) == 3){ N.p_stall = 0.02; N.stall_max = draw(S_PLAN, 2) ? 3*SEC : 200*MS; }
  static u64 ferr, rerr; ferr = rerr = 0; g_log_hook = [](Proc*, const std::string& l){ if(l.find("Error processing the netfilter") != std::string::npos) ferr++; if(l.find("Error reloading server filter") != std::string::npos) rerr++; };
  Feed fd(&rx); static const char *kinds[] = {"NBS1","NBS2","EMWIN"};
  for(int i=0;i<nc;i++){ Client *k = client_new(kinds[draw(S_PLAN, emw ? 3 : 2)], 0x0A000101 + i, strf("c%d", i)); u64 at_ = draw(S_PLAN, 3) ? draw(S_PLAN, 20*SEC) : 0; if(draw(S_PLAN, 3) == 2) k->idwait = 3*SEC; actor(k->p, "client", [k, at_]{ if(at_) sim_sleep(at_, false); client_run(k, 0x0A000001); }); }
  bool deny = draw(S_PLAN, 3) == 2; Client *no = nullptr; auto intruder = [&](const char *nm, u32 ip){ Client *k = client_new("NBS2", ip, nm); g_cli.pop_back(); client_start(k, 0x0A000001); return k; };
  if(deny){ OS.deny.insert(0x0A000163); no = intruder("cx", 0x0A000163); fault_fired("access_denied"); }
  static const u64 gp[] = {50*MS, 400*MS, 2*SEC}; u64 gap = gp[draw(S_PLAN, 3)]; auto feed = [&](int k){ for(int i=0;i<k;i++){ fd.send(fd.make(draw(S_PLAN, 3), draw(S_PLAN, 6) == 5 ? 90000 : 5000), 300*US); sim_sleep(draw(S_PLAN, gap), false); } };
  auto hup = [&]{ signal_proc(n, SIGHUP); fault_fired("hangup"); };
  feed(draw(S_PLAN, 12)); if(draw(S_PLAN, 3) == 2){ hup(); feed(draw(S_PLAN, 5)); }
  u64 J = (6 + 2*nc)*SEC + (N.p_stall > 0 ? N.stall_max : 0); sim_sleep(J + (emw ? 6*SEC : 0) + 8*SEC, false); feed(3 + draw(S_PLAN, 12));
  // new rules; possibly a broken script first
  int plan = draw(S_PLAN, 4); size_t lo = 0, hi = 0; bool seen = false; u64 extra = 0;
  if(plan){ drain_feed(n); sim_sleep(2*SEC + (N.p_stall > 0 ? N.stall_max : 0), false); lo = f1->notes.size(); v1 = rules();
    if(plan == 3){ spew(sf, script(v1, true)); u64 hb = g_now; hup(); feed(draw(S_PLAN, 6)); sim_sleep(draw(S_PLAN, 20*SEC), false); seen = g_now - hb > 8*SEC + (emw ? 6*SEC : 0) + N.stall_max; fault_fired("broken_script");
      if(draw(S_PLAN, 3) == 2){ sim_sleep(7*SEC, false); probe("stop_while_broken"); clean_stop(n, 60*SEC, "while the access filter cannot be loaded"); return; }
      spew(sf, script(v1, false)); hup(); }
    else { spew(sf, script(v1, false)); hup(); feed(draw(S_PLAN, 8)); }
    sim_sleep(14*SEC + (emw ? 6*SEC : 0), false); drain_feed(n); sim_sleep(2*SEC, false); hi = f1->notes.size(); feed(3 + draw(S_PLAN, 10)); extra = 1; }
  drain_feed(n); size_t last = ~0ul; wait_for([&]{ size_t t = 0; for(auto k : g_cli) t += k->ps.bytes; bool same = t == last; last = t; return same; }, 300*SEC, 8*SEC);
  expect_alive(n, "while serving clients under access rules"); rx.check(f1->notes, "n0");
  auto ref = [&](int i, size_t cut){ std::vector<Note> r; for(size_t k=0;k<f1->notes.size();k++) if(allowed(k < cut ? v0 : v1, f1->notes[k], ips[i], names[i])) r.push_back(f1->notes[k]); return r; };
  for(int i=0;i<nc;i++){ auto k = g_cli[i]; if(!k->connected) violation("client-refused", "%s could not connect", k->p->name.c_str()); if(k->eof) violation("client-dropped", "%s (%s) was disconnected by the server", k->p->name.c_str(), k->kind.c_str()); if(!k->ps.err.empty()) violation("client-format", "%s (%s): %s", k->p->name.c_str(), k->kind.c_str(), k->ps.err.c_str()); if(!k->ps.buf.empty() || k->ps.mid) violation("client-partial", "%s (%s): an unfinished product remains", k->p->name.c_str(), k->kind.c_str()); probe("client_products", k->ps.got.size()); probe("refused_products", f1->notes.size() - ref(i, lo).size()); }
  bool ok = false; size_t cut = lo, end = extra ? hi : 0;
  for(size_t q = extra ? lo : 0; q <= end && !ok; q++){ bool all = true; for(int i=0;i<nc && all;i++) all = fits(g_cli[i]->kind, g_cli[i]->ps.got, ref(i, q), g_cli[i]->ident_at + J + (emw ? 4*SEC : 0)); if(all){ ok = true; cut = q; } }
  if(!ok){ for(int i=0;i<nc;i++){ bool one = false; for(size_t q = extra ? lo : 0; q <= end && !one; q++) one = fits(g_cli[i]->kind, g_cli[i]->ps.got, ref(i, q), g_cli[i]->ident_at + J + (emw ? 4*SEC : 0)); if(!one){ auto r = ref(i, end); std::string a, b; for(auto &x : r) if(g_cli[i]->kind != "EMWIN" || emwin_pass(x.seq)) a += strf(" %u", x.seq); for(auto &x : g_cli[i]->ps.got) b += g_cli[i]->kind == "EMWIN" ? " " + x.name : strf(" %u", x.seq); violation("access-wrong", "client %s %s (%s) was allowed%s and received%s (rules %s)", ips[i].c_str(), names[i].c_str(), g_cli[i]->kind.c_str(), a.c_str(), b.c_str(), extra ? "changed once" : "never changed"); } }
    violation("access-cut", "no single point of the sequence explains where each client's rules changed"); }
  for(int i=0;i<nc;i++) check_stream(g_cli[i]->p->name, g_cli[i]->kind, g_cli[i]->ps.got, ref(i, cut), rx, g_cli[i]->ident_at + J + (emw ? 4*SEC : 0));
  if(v0.fail || (extra && v1.fail)){ bool hit = false; for(size_t k=0;k<f1->notes.size();k++){ if(extra && k >= lo && k < hi) continue; auto &R = k < cut ? v0 : v1; if(R.fail && f1->notes[k].seq % R.fail == 3 && f1->notes[k].t > g_cli[0]->ident_at + J) hit = true; } if(hit){ probe("filter_failed"); if(!ferr) violation("not-reported", "the access filter failed on a product and nothing was reported"); } }
  if(seen && !rerr) violation("not-reported", "the access filter could not be loaded and nothing was reported");
  if(no && (!no->eof || no->ps.bytes)) violation("access-denied", "a client that access control refuses %s (%lu bytes)", no->eof ? "was sent data" : "was not turned away", (unsigned long)no->ps.bytes);
  if(limit){ // the table is full: nobody else gets in until somebody leaves
    sim_sleep(3*SEC, false); Client *k = intruder("cy", 0x0A000170); sim_sleep(8*SEC, false); probe("table_full"); if(!k->eof || k->ps.bytes) violation("client-limit", "with %d clients connected and a limit of %d one more was admitted", nc, nc);
    for(int i=0;i<nc;i++) if(g_cli[i]->eof) violation("client-dropped", "%s was disconnected when one client too many connected", g_cli[i]->p->name.c_str());
    g_cli[0]->stop = true; sim_sleep(5*SEC, false); Client *q = intruder("cz", 0x0A000171); sim_sleep(12*SEC, false); if(q->eof || !q->connected) violation("client-limit", "a client was refused although another had left (limit %d)", nc); q->stop = true; }
  sample(strf("%d clients, %zu products, cut %zu in %zu..%zu", nc, f1->notes.size(), cut, lo, hi)); n->io.on = false; if(draw(S_PLAN, 2)) for(auto k : g_cli) k->stop = true;
  clean_stop(n, 60*SEC, "with access rules");
}
