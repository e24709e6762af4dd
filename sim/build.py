#!/usr/bin/env python3
"""Build the simulator against /repo's current working tree.

build(outdir): copies /repo's sources to a scratch directory, runs the project's own configure.sh and
Makefiles with a compiler wrapper that (a) adds coverage callbacks and AddressSanitizer, and (b) at link
time also emits the program as one relocatable object.  That object's undefined libc/pthread references
are renamed to sim_* and it becomes a shared object of which several copies are loaded by the simulator.
"""
import os, sys, subprocess, shutil, hashlib, glob, tempfile, re
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NBSPSIM_REPO', '/repo')
IMAGES = {  # image -> (make dir, target, copies)
    'nbspd': ('src', 'nbspd', 8),
    'nbspinsert': ('tools/nbspinsert', 'nbspinsert', 14),
    'nbspmcast': ('tools/nbspmcast', 'nbspmcast', 3),
}
CCWRAP = r'''#!/usr/bin/env python3
import os, sys, subprocess
a = sys.argv[1:]
extra = ['-DNBSPSIM','-O1','-g1','-U_FORTIFY_SOURCE','-D_FORTIFY_SOURCE=0','-fcf-protection=none','-fno-stack-protector','-fPIC','-w','-fno-omit-frame-pointer','-fsanitize-coverage=trace-pc','-fsanitize=address','--param=asan-globals=1','-fno-builtin-fprintf','-fno-builtin-printf']
real = 'REALCC'
if '-c' in a or '-E' in a or '-S' in a or '-M' in a:
    a = [x for x in a if x not in ('-O','-O2','-O3','-Werror')]
    os.execvp(real, [real] + a + extra)
out = None; objs = []; ldirs = []; i = 0
srcs = []
flags = []
while i < len(a):
    x = a[i]
    if x == '-o': out = a[i+1]; i += 2; continue
    if x == '-L': ldirs.append(a[i+1]); i += 2; continue
    if x.startswith('-L'): ldirs.append(x[2:])
    elif x.startswith('-l'): objs.append(x)
    elif x.endswith('.o') or x.endswith('.a'): objs.append(x)
    elif x.endswith('.c'): srcs.append(x)
    else: flags.append(x)
    i += 1
if srcs:
    for s in srcs:
        o = os.path.basename(s)[:-2] + '.simtmp.o'
        subprocess.check_call([real] + flags + ['-c', s, '-o', o] + extra); objs.insert(0, o)
if out is None: out = 'a.out'
sel = []
for x in objs:
    if x.startswith('-l'):
        for d in ldirs:
            p = os.path.join(d, 'lib%s.a' % x[2:])
            if os.path.exists(p) and not os.path.abspath(p).startswith('/usr'): sel.append(p); break
    else: sel.append(x)
r = subprocess.run(['ld','-r','-o', out + '.node.o'] + sel)
if r.returncode: sys.exit(r.returncode)
open(out, 'w').write('#!/bin/sh\nexit 1\n'); os.chmod(out, 0o755)
'''

def run(cmd, cwd=None, env=None, log=None, check=True):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if log: open(log, 'a').write('$ %s\n%s\n' % (' '.join(cmd), r.stdout))
    if check and r.returncode:
        sys.stderr.write('build step failed: %s\n%s\n' % (' '.join(cmd), r.stdout[-4000:])); raise SystemExit(3)
    return r.stdout

def tree_key():
    h = hashlib.sha256()
    for root in (REPO, HERE):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('.git', '_build', 'dev-notes', '__pycache__'))
            if root == REPO and d == REPO: ds[:] = [x for x in ds if x in ('src','tools','build','conf','filters','utils')]
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(('.c','.h','.in','.sh','.inc','.cc','.py','.awk','.y','.l')) and os.path.isfile(p):
                    h.update(p.encode()); h.update(open(p,'rb').read())
    return h.hexdigest()[:20]

def build(out, want=None):
    """Returns directory with 'sim' and 'images/'. Cached by content of the tree."""
    want = want or list(IMAGES)
    key = tree_key() 
    dst = os.path.join(out, key)
    if os.path.exists(os.path.join(dst, 'OK')): return dst
    if os.path.isdir(out):
        for d in os.listdir(out):   # drop stale builds
            if d != key: shutil.rmtree(os.path.join(out, d), ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='b', dir=out); log = os.path.join(tmp, 'log')
    src = os.path.join(tmp, 'src'); os.makedirs(src)
    # simulator objects in parallel with the project build
    ccs = sorted(glob.glob(os.path.join(HERE, '*.cc'))); procs = []
    for c in ccs:
        o = os.path.join(tmp, os.path.basename(c)[:-3] + '.o')
        procs.append((subprocess.Popen(['g++','-std=c++17','-O1','-g1','-D_GNU_SOURCE','-U_FORTIFY_SOURCE','-fcf-protection=none','-fno-stack-protector','-fno-omit-frame-pointer','-fPIC','-Wall','-Wno-unused-function','-Wno-misleading-indentation','-fsanitize=address','-fno-exceptions' if os.path.basename(c) != 'main.cc' else '-fexceptions','-c',c,'-o',o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), c, o))
    run(['rsync','-a','--exclude=/.git','--exclude=/_build','--exclude=/dev-notes', REPO + '/', src + '/'], log=log)
    bindir = os.path.join(tmp, 'bin'); os.makedirs(bindir)
    real = '/usr/bin/gcc'
    for n in ('cc','gcc','c99'):
        p = os.path.join(bindir, n); open(p,'w').write(CCWRAP.replace('REALCC', real)); os.chmod(p, 0o755)
    env = dict(os.environ); 
    for v in ('CFLAGS','MAKEFLAGS','MFLAGS'): env.pop(v, None)
    env['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    run(['./configure.sh'], cwd=src, env=env, log=log)
    env['PATH'] = bindir + ':' + env['PATH']
    imgs = os.path.join(tmp, 'images'); os.makedirs(imgs)
    wraps = set(re.findall(r'\bsim_(\w+)\s*\(', ''.join(open(os.path.join(HERE, f)).read() for f in ('libc.cc','vfs.cc'))))
    go = os.path.join(tmp, 'node_getopt.o'); run(['gcc','-O1','-fPIC','-w','-c',os.path.join(HERE,'node_getopt.c'),'-o',go], log=log)
    for name in want:
        d, tgt, copies = IMAGES[name]
        run(['make','-j8','CCWFLAGS=-w',tgt], cwd=os.path.join(src, d), env=env, log=log)
        node = os.path.join(src, d, tgt + '.node.o')
        und = [l.split()[-1] for l in run(['nm','-u',node]).splitlines() if l.strip()]
        red = []
        exp = set(wraps)
        for u in und:
            if u in SKIP: continue
            b = u
            if u.endswith('64') and u[:-2] in exp: b = u[:-2]
            if b == '__isoc99_fscanf': continue
            if b in exp: red.append('%s sim_%s' % (u, b))
        red.append('main sim_node_main')
        rf = os.path.join(tmp, name + '.redef'); open(rf,'w').write('\n'.join(red) + '\n')
        run(['objcopy','--redefine-syms='+rf, node, os.path.join(tmp, name+'.o')], log=log)
        so = os.path.join(imgs, name + '-0.so')
        run(['gcc','-shared','-Wl,-Bsymbolic','-o',so, os.path.join(tmp, name+'.o'),go,'-ltcl8.6','-ldb-5.3','-lz','-lm'], log=log)
        for i in range(1, copies): shutil.copyfile(so, os.path.join(imgs, '%s-%d.so' % (name, i)))
    objs = []
    bad = False
    for p, c, o in procs:
        outt = p.communicate()[0]; open(log,'a').write(outt)
        if p.returncode: sys.stderr.write(outt); bad = True
        objs.append(o)
    if bad: raise SystemExit(3)
    run(['g++','-rdynamic','-fsanitize=address','-o',os.path.join(tmp,'sim')] + objs + ['-ldl','-lz','-ldb-5.3'], log=log)
    shutil.rmtree(src); shutil.rmtree(bindir)
    open(os.path.join(tmp,'OK'),'w').write(key)
    try: os.rename(tmp, dst)
    except OSError:
        if os.path.exists(os.path.join(dst,'OK')): shutil.rmtree(tmp, ignore_errors=True)
        else: raise
    return dst
SKIP = {'getc','abs'}
if __name__ == '__main__':
    print(build(os.path.join(os.path.dirname(HERE), '.build')))
