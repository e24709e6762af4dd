#!/usr/bin/env python3
"""Decide one property by seeded search in the simulator.

  run.py C01 [--thorough]        search; exit 0 held / exit 1 + "VIOLATION property=... replay=..."
  run.py --replay FILE           replay a recorded violation and print what it does
"""
import os, sys, time, json, subprocess, re, shutil, tempfile, signal, threading, collections
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, 'sim')); sys.path.insert(0, HERE)
import build as simbuild
from props import PROPS, STUBS, ASSUME
NW = max(2, min(8, os.cpu_count() or 8))

class Run: pass
def parse(stream):
    """Yield one record per simulated run."""
    r = None
    for l in stream:
        l = l.rstrip('\n'); k, _, v = l.partition(' ')
        if k == 'seed': r = Run(); r.seed = int(v); r.faults = {}; r.probes = {}; r.states = []; r.samples = []; r.tape = []; r.cls = None; r.detail = ''; r.hash = r.ihash = ''; r.steps = r.switches = r.preempts = r.events = r.simns = 0; r.end = ''
        elif r is None:
            if k == 'total': yield int(v.split()[3])
        elif k == 'fault': a, b = v.rsplit(' ', 1); r.faults[a] = int(b)
        elif k == 'probe': a, b = v.rsplit(' ', 1); r.probes[a] = int(b)
        elif k == 'state': r.states.append(v)
        elif k == 'sample': r.samples.append(v)
        elif k == 'viol': r.cls, _, r.detail = v.partition('\t')
        elif k == 'tape': r.tape.append(tuple(int(x) for x in v.split()))
        elif k == 'abnormal': r.cls = 'abnormal-end:%s' % v; r.detail = 'the simulated process ended abnormally (wait status %s)' % v
        elif k in ('hash', 'ihash', 'end'): setattr(r, k, v)
        elif k in ('steps', 'switches', 'preempts', 'events', 'simns'): setattr(r, k, int(v))
        elif k == 'eor': yield r; r = None

class Sim:
    def __init__(self, dir, scratch): self.dir = dir; self.scratch = scratch; self.n = 0; self.lock = threading.Lock()
    def argv(self, *a):
        with self.lock: self.n += 1; n = self.n
        return [os.path.join(self.dir, 'sim'), '--images', os.path.join(self.dir, 'images'), '--scratch', os.path.join(self.scratch, 'w%d' % n)] + [str(x) for x in a]
    def replay(self, scen, seed, tape, trace=None):
        with self.lock: self.n += 1; n = self.n
        f = os.path.join(self.scratch, 'rp%d' % n); write_replay(f, scen, seed, tape)
        a = self.argv('--replay', f) + (['--trace', trace] if trace else [])
        p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        for r in parse(p.stdout.splitlines()):
            if isinstance(r, Run): os.unlink(f); return r
        os.unlink(f); return None

def write_replay(f, scen, seed, tape, head=''):
    with open(f, 'w') as h:
        h.write(head + 'scenario %s\nseed %d\n' % (scen, seed))
        for t in tape: h.write('tape %d %d %d\n' % t)

def minimise(sim, scen, r, budget):
    """ddmin over the recorded choices; several candidates are tried at a time."""
    import concurrent.futures as cf
    t0 = time.time(); tape = list(r.tape); cls = r.cls; tried = 0
    def bad(t):
        q = sim.replay(scen, r.seed, t); return q is not None and q.cls == cls
    with cf.ThreadPoolExecutor(NW) as ex:
        if bad([]): return [], 1
        n = 2
        while len(tape) >= 1 and time.time() - t0 < budget:
            size = max(1, len(tape)//n); cands = [tape[:i] + tape[i+size:] for i in range(0, len(tape), size)]; hit = None
            for k in range(0, len(cands), NW):
                if time.time() - t0 > budget: break
                chunk = cands[k:k+NW]; res = list(ex.map(bad, chunk)); tried += len(chunk)
                good = [c for c, ok in zip(chunk, res) if ok]
                if good: hit = good[0]; break
            if hit is not None: tape = hit; n = max(2, n - 1)
            elif size == 1: break
            else: n = min(len(tape), n*2)
        # shrink the values
        i = 0
        while i < len(tape) and time.time() - t0 < budget:
            s, k, v = tape[i]; c = [x for x in sorted({1, v//2, v-1}) if 0 < x < v]
            res = list(ex.map(bad, [tape[:i] + [(s, k, x)] + tape[i+1:] for x in c])) if c else []; tried += len(c)
            for x, ok in zip(c, res):
                if ok: tape[i] = (s, k, x); break
            i += 1
    return tape, tried

def known(pid):
    kn = []
    for l in open(os.path.join(ROOT, 'known_findings.txt')) if os.path.exists(os.path.join(ROOT, 'known_findings.txt')) else []:
        l = l.strip()
        m = re.match(r'finding: property=(\S+) class=(\S+) detail=/(.*)/ what: (.*)$', l)
        if m and m.group(1) == pid: kn.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return kn

def main():
    if sys.argv[1] == '--replay':
        return do_replay(sys.argv[2])
    pid = sys.argv[1]; thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'; tier = 'thorough' if thorough else 'quick'
    P = PROPS[pid]; vseed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    secs = float(os.environ.get('NBSPSIM_SECS') or (P.get('thorough_secs', 600) if thorough else P.get('secs', 22)))
    sdir = simbuild.build(os.path.join(ROOT, '.build')); tb = time.time() - t0
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix='nbspsim.', dir=base)
    try: return search(pid, P, tier, vseed, secs, sdir, scratch, t0, tb)
    finally: shutil.rmtree(scratch, ignore_errors=True)

def search(pid, P, tier, vseed, secs, sdir, scratch, t0, tb):
    sim = Sim(sdir, scratch); kn = known(pid)
    scens = P['scenarios']; tot = sum(w for _, w in scens)
    agg = collections.Counter(); faults = collections.Counter(); probes = collections.Counter(); ih = set(); hashes = set(); states = set(); samples = []; viols = {}; knownhit = {}; per = collections.Counter(); edges = collections.Counter(); incon = 0; lock = threading.Lock(); stop = [False]; faultfree = 0; kcount = collections.Counter()
    def take(scen, r):
        nonlocal incon, faultfree
        with lock:
            agg['runs'] += 1; per[scen] += 1
            for k in ('steps', 'switches', 'preempts', 'events', 'simns'): agg[k] += getattr(r, k)
            for k, v in r.faults.items(): faults[k] += v
            for k, v in r.probes.items(): probes[k] = max(probes[k], v) if k.endswith('_max') else probes[k] + v
            if not r.faults: faultfree += 1
            if r.ihash: ih.add((scen, r.ihash))
            states.update(r.states)
            if r.samples and sum(1 for s in samples if s.startswith(scen)) < 2: samples.append('%s seed %d: %s; %d scheduling steps, %d switches, %.1f simulated s; faults %s' % (scen, r.seed, ' / '.join(r.samples), r.steps, r.switches, r.simns/1e9, r.faults))
            if r.cls:
                for c, rx, what in kn:
                    if c == r.cls and rx.search(r.detail): knownhit.setdefault(what, r.detail); kcount[what] += 1; return
                viols.setdefault((scen, r.cls), []).append(r)
                if sum(len(v) for v in viols.values()) >= 6 or tier == 'quick': stop[0] = True
    procs = []
    def worker(w, scen, sec, off):
        # seeds depend on VERIF_SEED only; each worker walks its own residue class
        seed0 = vseed*1000003 + off
        p = subprocess.Popen(sim.argv('--scenario', scen, '--seed0', seed0 + w, '--stride', NW, '--count', 10**9, '--secs', sec, '--maxviol', 10**6 if kn else 3), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        procs.append(p)
        for r in parse(p.stdout):
            if isinstance(r, Run): take(scen, r)
            else: edges[scen] = max(edges[scen], r)
            if stop[0]: p.send_signal(signal.SIGKILL); break
        p.stdout.close(); p.wait()
    ts = time.time()
    for i, (scen, w) in enumerate(scens):
        if stop[0]: break
        sec = secs*w/tot; th = [threading.Thread(target=worker, args=(k, scen, sec, i*500000000)) for k in range(NW)]
        for t in th: t.start()
        for t in th: t.join()
    wall_search = time.time() - ts
    out = []; bad = 0; unrep = 0
    for (scen, cls), rs in sorted(viols.items(), key=lambda x: (x[0][1].startswith('abnormal'), len(x[1][0].tape))):
        if bad >= 3: break
        ok = False
        for r in sorted(rs, key=lambda r: len(r.tape))[:3]:
            if cls.startswith('abnormal'):
                p = subprocess.run(sim.argv('--scenario', scen, '--seed0', r.seed, '--count', 1), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True); q = [x for x in parse(p.stdout.splitlines()) if isinstance(x, Run)]
                if q and q[0].cls == cls: tape = []; tried = 0; final = q[0]; ok = True; break
                unrep += 1; continue
            a = sim.replay(scen, r.seed, r.tape)
            if a is None or a.cls != cls or a.hash != r.hash: unrep += 1; print('inconclusive: %s seed %d: %s: %s; again: %s' % (scen, r.seed, cls, r.detail[:300], a and (a.cls, a.detail[:200])), file=sys.stderr); continue
            tape, tried = minimise(sim, scen, r, 45 if tier == 'quick' else 120)
            a = sim.replay(scen, r.seed, tape); b = sim.replay(scen, r.seed, tape)
            if a and b and a.cls == b.cls == cls and a.hash == b.hash: final = a; ok = True; break
            tape = r.tape; a = sim.replay(scen, r.seed, tape); b = sim.replay(scen, r.seed, tape)
            if a and b and a.cls == b.cls == cls and a.hash == b.hash: final = a; ok = True; break
            unrep += 1
        if not ok: continue
        # a minimised run may turn out to be a listed finding
        hit = [what for c, rx, what in kn if c == cls and rx.search(final.detail)]
        if hit: knownhit.setdefault(hit[0], final.detail); continue
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        f = os.path.join(ROOT, 'replays', '%s-%s-%d.replay' % (pid, re.sub(r'[^A-Za-z0-9]+', '_', cls)[:60], r.seed))
        head = '# property %s\n# violation %s: %s\n# choices %d (recorded %d, %d candidate runs while minimising), run hash %s\n' % (pid, cls, final.detail, len(tape), len(r.tape), tried, final.hash)
        write_replay(f, scen, r.seed, tape, head)
        tr = os.path.join(scratch, 'trace.txt'); sim.replay(scen, r.seed, tape, trace=tr)
        try: shutil.copy(tr, f[:-7] + '.trace')
        except OSError: pass
        print('violation class %s in scenario %s, seed %d: %s' % (cls, scen, r.seed, final.detail))
        print('VIOLATION property=%s replay=%s' % (pid, f)); bad += 1
    for what, d in knownhit.items(): print('KNOWN-FINDING: property=%s %s' % (pid, what))
    wall = time.time() - t0
    hrs = max(wall_search, 1e-9)/3600
    ev = {'property': pid, 'tier': tier, 'seed': vseed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': bad,
      'assumptions': ASSUME + P.get('assume', []),
      'coverage': {'evaluations': agg['runs'], 'distinct_nontrivial': len(ih),
        'rule': 'One evaluation is one simulated run (one seed) of ' + ', '.join(s for s, _ in scens) + ': ' + P['rule'] + ' Runs are counted as distinct by the hash of the sequence of scheduling decisions and of the calls made at each of them (thread, call, result); runs in which the daemon did no work cannot occur because every run boots it and feeds it.',
        'samples': samples[:6], 'simulated_runs_per_scenario': dict(per), 'seeds_per_hour': int(agg['runs']/hrs), 'simulated_seconds': round(agg['simns']/1e9, 1), 'scheduling_steps': agg['steps'], 'context_switches': agg['switches'], 'preemptions_inside_computation': agg['preempts'], 'events': agg['events'],
        'faults_injected': dict(sorted(faults.items())), 'runs_without_any_fault': faultfree, 'probes': dict(sorted(probes.items())), 'distinct_interleavings': len(ih), 'distinct_states': len(states), 'code_edges_reached': max(edges.values() or [0]),
        'seed_range': 'VERIF_SEED*1000003 + offset', 'search_s': round(wall_search, 2), 'build_s': round(tb, 2), 'inconclusive_runs': unrep, 'known_finding_hits': sum(kcount.values()), 'components_real': P.get('real', []), 'components_stubbed': STUBS}}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d runs in %.1f s (%d seeds/hour), %.0f simulated s, %d distinct interleavings, %d violations, %d unreproducible' % (pid, tier, agg['runs'], wall_search, agg['runs']/hrs, agg['simns']/1e9, len(ih), bad, unrep))
    if agg['runs'] == 0: print('no runs were made'); return 2
    return 1 if bad else 0

def do_replay(f):
    sdir = simbuild.build(os.path.join(ROOT, '.build')); base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir(); scratch = tempfile.mkdtemp(prefix='nbspsim.', dir=base)
    try:
        sim = Sim(sdir, scratch); tr = os.path.join(scratch, 'trace'); p = subprocess.run(sim.argv('--replay', f, '--trace', tr), stdout=subprocess.PIPE, text=True)
        for r in parse(p.stdout.splitlines()):
            if isinstance(r, Run): print('scenario ended: %s hash %s\n%s %s' % (r.end, r.hash, r.cls, r.detail)); shutil.copy(tr, '/tmp/nbspsim.trace'); print('trace: /tmp/nbspsim.trace'); return 1 if r.cls else 0
    finally: shutil.rmtree(scratch, ignore_errors=True)
    return 2
if __name__ == '__main__': sys.exit(main())
