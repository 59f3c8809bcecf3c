# Shared machinery of the checks: build the library and a driver from /repo's
# working tree, run scripts on it, validate the recorded traces with TLC, model
# check the specification, write evidence.
import os, sys, json, re, time, hashlib, shutil, subprocess, random, fcntl, threading, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPECS = os.path.join(VERIF, 'specs')
HARN = os.path.join(VERIF, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXX = 'g++-12'
BASE = ['-std=c++14', '-Os', '-g1', '-DNDEBUG=1', '-fno-threadsafe-statics', '-fno-enforce-eh-specs', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-w']
ASAN = ['-fsanitize=address']
NCPU = min(8, os.cpu_count() or 8)
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

class ToolError(Exception):
    pass

class BuildError(ToolError):
    pass

def log(*a):
    print(*a, flush=True)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

# ---------------------------------------------------------------- build
_hash = None
def repo_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for f in sorted(os.listdir(REPO)):
            p = os.path.join(REPO, f)
            if os.path.isfile(p) and (f.endswith(('.h', '.cc', '.in')) or f in ('configure', 'Makefile')) and f not in ('config.h',):
                h.update(f.encode() + b'\0')
                h.update(open(p, 'rb').read())
        _hash = h.hexdigest()[:16]
    return _hash

def prune(keep):
    ds = [d for d in glob.glob(BUILD + '/t-*') if d != keep]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-3]:
        shutil.rmtree(d, ignore_errors=True)

def tree():
    """Snapshot of the library's sources with a configuration of their own."""
    d = os.path.join(BUILD, 't-' + repo_hash())
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(d + '/ok'):
            prune(d)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d + '/src')
            os.makedirs(d + '/inc')
            for f in os.listdir(REPO):
                p = os.path.join(REPO, f)
                if os.path.isfile(p) and (f.endswith(('.h', '.cc', '.in')) or f in ('configure', 'Makefile')) and f != 'config.h':
                    shutil.copy2(p, d + '/src/' + f)
            env = {k: v for k, v in os.environ.items() if k not in ('CC', 'CXX', 'CXXFLAGS', 'LDFLAGS', 'MAKEFLAGS')}
            r = sh(['bash', './configure', '--builddir=_build'], cwd=d + '/src', env=env)
            if not os.path.exists(d + '/src/config.h'):
                raise BuildError('configure failed:\n' + r.stdout)
            os.symlink('../src', d + '/inc/ustl')
            # ustl.h expects the installed layout
            open(d + '/inc/ustl.h', 'w').write('#include "ustl/ustl.h"\n')
            open(d + '/ok', 'w').write('')
    return d

def compile_all(jobs):
    def one(j):
        src, obj, flags = j
        r = sh([CXX] + flags + ['-c', src, '-o', obj + '.tmp.o'])
        if r.returncode:
            raise BuildError('compiling %s failed:\n%s' % (src, r.stdout[-4000:]))
        os.rename(obj + '.tmp.o', obj)
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))

def build(driver, flags=None, san=True, extra=(), link=(), cc=None):
    """Builds harness/<driver>.cc with the library; returns the executable."""
    d = tree()
    fl = list(BASE) + (ASAN if san else []) + list(flags or [])
    fl += ['-I' + d + '/inc', '-I' + HARN]
    lib_fl = [f for f in fl if not f.startswith('-DDRV')]
    key = hashlib.sha256(' '.join(lib_fl).encode()).hexdigest()[:8]
    ld = os.path.join(d, 'o-' + key)
    os.makedirs(ld, exist_ok=True)
    hk = hashlib.sha256((' '.join(fl) + ' '.join(link)).encode())
    for f in sorted(glob.glob(HARN + '/*.h')) + [HARN + '/' + driver + '.cc'] + [HARN + '/' + e for e in extra]:
        hk.update(open(f, 'rb').read())
    exe = os.path.join(d, driver + '-' + hk.hexdigest()[:12])
    with open(ld + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs = []
        objs = []
        for s in sorted(glob.glob(d + '/src/*.cc')):
            o = ld + '/' + os.path.basename(s)[:-3] + '.o'
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((s, o, lib_fl))
        if not os.path.exists(exe):
            dobjs = []
            for s in [driver + '.cc'] + list(extra):
                o = exe + '-' + s[:-3] + '.o'
                dobjs.append(o)
                jobs.insert(0, (HARN + '/' + s, o, fl))
            compile_all(jobs)
            r = sh(['gcc-12'] + (ASAN if san else []) + [f for f in (flags or []) if f.startswith('-fsan')] + ['-o', exe + '.tmp'] + dobjs + objs + ['-lsupc++', '-lm', '-lpthread'] + list(link))
            if r.returncode:
                raise BuildError('linking failed:\n' + r.stdout[-4000:])
            os.rename(exe + '.tmp', exe)
            for o in dobjs:
                os.unlink(o)
    return exe

# ---------------------------------------------------------------- run scripts
RUNENV = dict(PATH='/usr/bin:/bin', LC_ALL='C', TZ='UTC',
              ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:max_allocation_size_mb=16384:hard_rss_limit_mb=6000:malloc_context_size=3:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:handle_abort=0:symbolize=0')

class Work:
    """Scratch directory of a run, removed at the end."""
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix='w-', dir=BUILD)
        self.n = 0
        self.lock = threading.Lock()
    def path(self, suffix):
        with self.lock:
            self.n += 1
            return os.path.join(self.d, '%d%s' % (self.n, suffix))
    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

def write_script(path, segs):
    with open(path, 'w') as f:
        for s in segs:
            f.write('S\n')
            for l in s:
                f.write(l + '\n')

def run_driver(work, exe, segs, env=None, timeout=300, pre=None, cwd=None):
    """Runs the segments; returns per segment a list of JSON event strings. A
    segment cut short by a crash or a hang ends with an event no spec accepts."""
    sp = work.path('.scr')
    write_script(sp, segs)
    res = []
    skip = 0
    crashes = 0
    e = dict(RUNENV)
    e.update(env or {})
    t0 = time.time()
    while skip < len(segs):
        op = work.path('.out')
        ep = work.path('.err')
        with open(ep, 'wb') as ef:
            try:
                rc = subprocess.run((pre or []) + [exe, sp, op, str(skip)], stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=e, timeout=timeout, cwd=cwd or work.d).returncode
            except subprocess.TimeoutExpired:
                rc = -14
        cur = None
        done = False
        got = []
        try:
            f = open(op, 'r', errors='replace')
        except FileNotFoundError:
            raise ToolError('driver wrote nothing (rc %d): %s' % (rc, open(ep, errors='replace').read()[-2000:]))
        with f:
            for line in f:
                if line == 'S\n':
                    cur = []
                    got.append(cur)
                elif line == 'E\n':
                    done = True
                elif line.endswith('\n') and cur is not None:
                    cur.append(line[:-1])
        os.unlink(op)
        err = open(ep, errors='replace').read()
        os.unlink(ep)
        if done and rc == 0:
            res += got
            skip += len(got)
            if skip != len(segs):
                raise ToolError('driver ended early')
        else:
            if rc in (94, 95, 96, 97, 98):
                raise ToolError('driver error %d\n%s' % (rc, err[-1500:]))
            if not got:
                raise ToolError('driver died before the first segment, rc %d\n%s' % (rc, err[-3000:]))
            m = re.search(r'ERROR: AddressSanitizer: ([a-zA-Z0-9_-]+)', err)
            why = m.group(1) if m else ('hang' if rc in (-14, 142) else 'exit %d' % rc)
            got[-1].append(json.dumps(dict(op='crash', a=[], r=[why, []], s=[])))
            res += got
            skip += len(got)
            crashes += 1
            if crashes > 25:
                # enough: the rest is not run
                break
    os.unlink(sp)
    return res

def run_parallel(work, exe, segs, jobs=NCPU, **kw):
    if len(segs) < 64:
        jobs = 1
    n = max(1, min(jobs, len(segs)))
    # contiguous chunks
    ch = [segs[i * len(segs) // n:(i + 1) * len(segs) // n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda c: run_driver(work, exe, c, **kw), ch))
    out = []
    sc = []
    for c, r in zip(ch, rs):
        out += r
        sc += c[:len(r)]
    return sc, out

# ---------------------------------------------------------------- TLC
TRACE_TLA = '''---- MODULE %(mod)s ----
\\* Generated from lib/vf.py: a recorded execution is accepted when it is a
\\* behaviour of %(spec)s. A line that no action explains is a deadlock.
EXTENDS %(spec)s, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES seg, l
TInit == Init /\\ seg \\in 1..Len(Trace) /\\ l = 1
TStep == /\\ l <= Len(Trace[seg])
         /\\ LET e == Trace[seg][l] IN
              /\\ Do(e.op, e.a)
              /\\ ret' = e.r
              /\\ Observe(e.s)
         /\\ l' = l + 1 /\\ seg' = seg
TDone == l > Len(Trace[seg]) /\\ UNCHANGED <<%(vars)s, ret, seg, l>>
TNext == TStep \\/ TDone
====
'''
MC_TLA = '''---- MODULE %(mod)s ----
\\* Generated from lib/vf.py: bounded model of %(spec)s; each transition is
\\* printed, for the tours that cover them all.
EXTENDS %(spec)s, Json, TLC
VARIABLE call
MCInit == Init /\\ call = <<>>
MCNext == \\E c \\in Calls : Do(c[1], c[2]) /\\ call' = c %(rest)s
MCView == vars
MCEmit == PrintT("T " \\o ToJson(call') \\o "~" \\o ToJson(vars) \\o "~" \\o ToJson(vars'))
====
'''

def tlc(work, module_text, mod, cfg, env=None, workers=2, heap='3g', timeout=800, args=()):
    d = work.path('.tlc')
    os.makedirs(d)
    for f in glob.glob(SPECS + '/*.tla'):
        os.symlink(f, d + '/' + os.path.basename(f))
    if module_text is not None:
        if os.path.islink(d + '/%s.tla' % mod):
            os.unlink(d + '/%s.tla' % mod)
        open(d + '/%s.tla' % mod, 'w').write(module_text)
    open(d + '/%s.cfg' % mod, 'w').write(cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', '-cp', JARS, 'tlc2.TLC',
           '-metadir', d + '/meta', '-workers', str(workers), '-config', mod + '.cfg', '-noGenerateSpecTE'] + list(args) + [mod + '.tla']
    op = d + '/out'
    with open(op, 'w') as of:
        try:
            rc = subprocess.run(cmd, cwd=d, stdout=of, stderr=subprocess.STDOUT, env=e, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -14
    return rc, op, d

def tlc_counts(text):
    m = None
    for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', text):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))

class Rejection:
    def __init__(self, seg, line, state):
        self.seg, self.line, self.state = seg, line, state

def validate(work, spec, traces, consts='', workers=2, timeout=800, heap='4g', invs=()):
    """traces: list of lists of event strings. Returns (generated, distinct, Rejection or None)."""
    tf = work.path('.ndjson')
    with open(tf, 'w') as f:
        for t in traces:
            f.write('[' + ','.join(t) + ']\n')
    mod = spec + 'Trace'
    cfg = 'INIT TInit\nNEXT TNext\n' + consts + ''.join('INVARIANT %s\n' % i for i in invs)
    rc, op, d = tlc(work, TRACE_TLA % dict(mod=mod, spec=spec, vars='tvars' if '\ntvars ==' in open(SPECS + '/' + spec + '.tla').read() else 'vars'), mod, cfg, env=dict(TRACE_FILE=tf), workers=workers, timeout=timeout, heap=heap)
    out = open(op, errors='replace').read()
    shutil.rmtree(d, ignore_errors=True)
    os.unlink(tf)
    gen, dist = tlc_counts(out)
    if rc == 0 and 'No error has been found' in out:
        want = sum(len(t) + 1 for t in traces)
        if dist != want:
            raise ToolError('%s: %d states for %d lines' % (mod, dist, want))
        return gen, dist, None
    if rc in (11, 12):
        # the last state of the printed behaviour
        k = out.rfind('\nState ')
        if k < 0:
            k = out.find('Error: ')
        st = out[k:]
        st = st[:st.find('\n\n')] if '\n\n' in st else st
        ms = re.search(r'/\\ seg = (\d+)', out[k:])
        ml = re.search(r'/\\ l = (\d+)', out[k:])
        if ms and ml:
            return gen, dist, Rejection(int(ms.group(1)) - 1, int(ml.group(1)) - 1, st.strip())
    raise ToolError('TLC on %s failed, exit %d:\n%s' % (mod, rc, '\n'.join(l for l in out.split('\n') if not l.startswith('"T '))[-3500:]))

SHARD_BYTES = 16 << 20      # more would not fit in the memory of one TLC

def shard(traces, nmax=4, per=6000):
    tot = sum(len(t) for t in traces)
    n = max(1, min(nmax, tot // per + 1), sum(len(e) for t in traces for e in t) // SHARD_BYTES + 1)
    out = [[] for _ in range(n)]
    sz = [0] * n
    idx = [[] for _ in range(n)]
    lim = tot / n
    k = 0
    for i, t in enumerate(traces):
        if sz[k] >= lim and k < n - 1:
            k += 1
        out[k].append(t)
        idx[k].append(i)
        sz[k] += len(t)
    return [(o, i) for o, i in zip(out, idx) if o]

def model_check(work, spec, cfg, emit=True, workers=4, timeout=800, heap='6g', args=(), limit=None, rest=''):
    mod = 'MC' + spec
    c = cfg + '\nINIT MCInit\nNEXT MCNext\nVIEW MCView\nCHECK_DEADLOCK FALSE\n' + ('ACTION_CONSTRAINT MCEmit\n' if emit else '')
    rc, op, d = tlc(work, MC_TLA % dict(mod=mod, spec=spec, rest=rest), mod, c, workers=workers, timeout=timeout, heap=heap, args=args)
    edges = []
    ids, raw = {}, {}
    tail = []
    with open(op, errors='replace') as f:
        for line in f:
            if line.startswith('"T '):
                c, a, b = json.loads(line.strip())[2:].split('~')
                for x in (a, b):        # the first transition leaves the initial state, number 0
                    if x not in raw:
                        raw[x] = ids.setdefault(norm(json.loads(x)), len(ids))
                edges.append((raw[a], call_line(json.loads(c)), raw[b]))
            else:
                tail.append(line)
    out = ''.join(tail)
    shutil.rmtree(d, ignore_errors=True)
    gen, dist = tlc_counts(out)
    if rc != 0 or 'No error has been found' not in out:
        raise ToolError('model checking %s failed, exit %d:\n%s' % (spec, rc, out[-4000:]))
    return gen, dist, tours(edges, len(ids), limit)

def norm(x):
    """A state printed by TLC, which writes a function on 1..n as an array or as an object."""
    if isinstance(x, dict):
        if x and all(k.lstrip('-').isdigit() for k in x):
            ks = sorted(map(int, x))
            if ks == list(range(1, len(ks) + 1)):
                return tuple(norm(x[str(k)]) for k in ks)
        return tuple((k, norm(v)) for k, v in sorted(x.items()))
    if isinstance(x, list):
        return tuple(norm(v) for v in x)
    return x

def tours(edges, nst, limit=None, maxlen=48):
    """Call sequences from the initial state that together take every transition
    (of a random choice of limit of them)."""
    if not edges:
        return []
    rnd = random.Random(SEED)
    # number the states in an order that does not depend on TLC's workers
    adj = [[] for _ in range(nst)]
    for a, c, b in edges:
        adj[a].append((c, b))
    num = {0: 0}
    q = [0]
    for u in q:
        adj[u].sort(key=lambda x: x[0])
        for c, v in adj[u]:
            if v not in num:
                num[v] = len(num)
                q.append(v)
    edges = sorted((num[a], c, num[b]) for a, c, b in edges)
    adj = [[] for _ in range(nst)]
    for e, (a, c, b) in enumerate(edges):
        adj[a].append(e)
    # shortest way from the initial state to each
    par = [None] * nst
    par[0] = -1
    q = [0]
    for u in q:
        for e in adj[u]:
            v = edges[e][2]
            if par[v] is None:
                par[v] = e
                q.append(v)
    todo = list(range(len(edges)))
    if limit and len(todo) > limit:
        todo = rnd.sample(todo, limit)
    want = [[] for _ in range(nst)]
    rnd.shuffle(todo)
    for e in todo:
        want[edges[e][0]].append(e)
    segs = []
    for st in q:
        while want[st]:
            way = []
            u = st
            while u:
                e = par[u]
                way.append(edges[e][1])
                u = edges[e][0]
            way.reverse()
            u = st
            while len(way) < maxlen:
                if want[u]:
                    e = want[u].pop()
                else:
                    # a step to a neighbour with something left
                    e = next((e for e in adj[u][:200] if want[edges[e][2]]), None)
                    if e is None:
                        break
                way.append(edges[e][1])
                u = edges[e][2]
            segs.append(way)
    return segs

def call_line(c):
    def one(a):
        return '[' + ','.join(str(int(x)) for x in a) + ']' if isinstance(a, list) else str(int(a))
    return ' '.join([c[0]] + [one(a) for a in c[1]])

def L(*xs):
    """One script line: op and arguments (ints or lists)."""
    return call_line((xs[0], list(xs[1:])))

# ---------------------------------------------------------------- checks
class Check:
    """One property. Subclasses give spec, driver(s), scripts."""
    prop = None
    spec = None
    level = 'model_checking'
    drivers = []            # list of dict(name=, flags=, san=, extra=, link=)
    mcs = []                # list of (name, cfg text, emit) for quick
    mcs_thorough = []
    assumptions = []
    trace_consts = ''
    trace_invs = ()
    mc_rest = ''            # conjunct of the model's steps, for variables that only traces determine
    limit = 60000           # model transitions tried on the implementation
    limit_thorough = 1000000
    shards = 4
    per_shard = 6000

    def scripts(self, tier, rnd, drv):
        return []
    def adapt(self, seg, drv):
        """A model-generated segment as a script for driver drv (or None)."""
        return seg
    def transform(self, drv, events):
        return events

class Runner:
    def __init__(self, chk, tier):
        self.c, self.tier = chk, tier
        self.work = Work()
        self.t0 = time.time()
        self.states = self.trans = 0
        self.mcinfo = []
        self.ntraces = self.nevents = 0
        self.ops = {}
        self.samples = []
        self.lock = threading.Lock()

    def exe(self, drv):
        kw = {k: v for k, v in drv.items() if k in ('flags', 'san', 'extra', 'link')}
        return build(drv['name'], **kw)

    def run(self):
        c = self.c
        rnd = random.Random(SEED * 1000003 + sum(map(ord, c.prop)))
        with ThreadPoolExecutor(NCPU) as ex:
            fb = [ex.submit(self.exe, d) for d in c.drivers]
            mcs = c.mcs_thorough if (self.tier == 'thorough' and c.mcs_thorough) else c.mcs
            fm = [ex.submit(model_check, self.work, c.spec if len(m) < 4 else m[3], m[1], m[2], rest=m[5] if len(m) > 5 else c.mc_rest, limit=c.limit if self.tier == 'quick' else c.limit_thorough) for m in mcs]
            gen_segs = []
            for m, f in zip(mcs, fm):
                g, dist, segs = f.result()
                self.states += dist
                self.trans += g
                self.mcinfo.append(dict(model=m[0], states=dist, transitions=g, tests=len(segs)))
                log('model %s: %d distinct states, %d transitions' % (m[0], dist, g))
                gen_segs.append(segs)
            exes = [f.result() for f in fb]
        jobs = []
        for d, exe in zip(c.drivers, exes):
            segs = []
            for m, s in zip(mcs, gen_segs):
                if len(m) > 4 and m[4] != d.get('tag'):
                    continue
                for g in s:
                    a = c.adapt(g, d)
                    if a is not None:
                        segs.append(a)
            nmodel = len(segs)
            segs += list(c.scripts(self.tier, rnd, d))
            log('driver %s %s: %d segments (%d from the model)' % (d['name'], ' '.join(d.get('flags') or []), len(segs), nmodel))
            jobs.append((d, exe, segs))
        with ThreadPoolExecutor(3 if self.tier == 'quick' else 1) as ex:
            fs = [ex.submit(self.conform, *j) for j in jobs]
            for f in fs:
                try:
                    v = f.result()
                except BaseException:
                    for g in fs:
                        g.cancel()
                    raise
                if v:
                    for g in fs:
                        g.cancel()
                    return v
        return self.known(exes)

    def conform(self, d, exe, segs):
        c = self.c
        if not segs:
            return None
        sc, tr = run_parallel(self.work, exe, segs, **self.runopts(d))
        tr = [c.transform(d, t) for t in tr]
        with self.lock:
            self.ntraces += len(tr)
            for t in tr:
                self.nevents += len(t)
                for e in t:
                    o = e[7:e.index('"', 7)]
                    self.ops[o] = self.ops.get(o, 0) + 1
            if tr:
                self.samples.append(dict(script=sc[len(sc) // 2][:12], last_event=tr[len(tr) // 2][-2 if len(tr[len(tr) // 2]) > 1 else -1][:600]))
        sh_ = shard(tr, c.shards, c.per_shard)
        w = 2 if len(sh_) >= 4 else (4 if len(sh_) > 1 else 8)
        with ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(validate, self.work, c.spec if 'spec' not in d else d['spec'], t, d.get('consts', c.trace_consts), w, 800, '4g', c.trace_invs) for t, i in sh_]
            rej = []
            for f, (t, i) in zip(fs, sh_):
                g, dist, r = f.result()
                with self.lock:
                    self.states += dist
                    self.trans += g
                if r:
                    rej.append((i[r.seg], r))
        for k, r in rej:
            v = self.confirm(d, exe, sc, tr, k, r)
            if v:
                return v
        if rej:
            raise ToolError('a rejection did not repeat: %s' % rej[0][1].state)
        return None

    def runopts(self, d):
        return dict(env=d.get('env'), pre=d.get('pre'))

    def confirm(self, d, exe, sc, tr, k, r):
        c = self.c
        spec = d.get('spec', c.spec)
        for scripts in ([sc[k]], sc[max(0, k - 400):k + 1]):
            t = [c.transform(d, x) for x in run_driver(self.work, exe, scripts, **self.runopts(d))]
            g, dist, r2 = validate(self.work, spec, t, d.get('consts', c.trace_consts), 4, 800, '4g', c.trace_invs)
            if r2:
                return self.violation(d, scripts[r2.seg], t[r2.seg], r2)
        return None

    def violation(self, d, script, trace, r):
        c = self.c
        os.makedirs(BUILD + '/replay', exist_ok=True)
        rp = os.path.join(BUILD, 'replay', '%s-%d-%d.json' % (c.prop, os.getpid(), threading.get_ident() % 100000))
        ev = trace[r.line] if r.line < len(trace) else '(end)'
        json.dump(dict(property=c.prop, driver=d['name'], flags=d.get('flags'), script=script, event_index=r.line,
                       rejected_event=json.loads(ev) if ev.startswith('{') else ev, spec_state_before=r.state,
                       trace=[json.loads(e) for e in trace]), open(rp, 'w'), indent=1)
        log('The specification %s explains the first %d events of this execution, not the next:' % (d.get('spec', c.spec), r.line))
        for l in script[-12:]:
            log('    ' + l[:300])
        log('  event: ' + ev[:1500])
        log('  state before: ' + r.state[:1500])
        log('VIOLATION property=%s replay=%s' % (c.prop, rp))
        return rp

    def known(self, exes):
        """Listed findings: the script must still fail at the listed event, and nowhere else."""
        c = self.c
        fn = os.path.join(VERIF, 'known_findings.json')
        kf = [k for k in json.load(open(fn))['findings'] if k['property'] == c.prop] if os.path.exists(fn) else []
        for k in kf:
            for d, exe in zip(c.drivers, exes):
                if d['name'] != k['driver'] or (k.get('flags') is not None and k['flags'] != (d.get('flags') or [])):
                    continue
                t = [c.transform(d, x) for x in run_driver(self.work, exe, [k['script']], **self.runopts(d))]
                g, dist, r = validate(self.work, d.get('spec', c.spec), t, k.get('consts') or d.get('consts', c.trace_consts), 1, 300, '2g', c.trace_invs)
                if r is None:
                    log('(finding %s no longer shows)' % k['id'])
                elif r.line < len(t[0]) and json.loads(t[0][r.line])['op'] == k['event']['op'] and all(json.loads(t[0][r.line]).get(f) == v for f, v in k['event'].items()):
                    log('KNOWN-FINDING: property=%s %s' % (c.prop, k['what']))
                else:
                    return self.violation(d, k['script'], t[0], r)
                break
        return None

    def evidence(self, violations):
        c = self.c
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        ev = dict(property=c.prop, tier=self.tier, seed=SEED, level=c.level,
                  coverage=dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.ntraces,
                                events=self.nevents, events_by_call=dict(sorted(self.ops.items())), models=self.mcinfo, samples=self.samples[:6]),
                  assumptions=c.assumptions, wall_s=round(time.time() - self.t0, 1), violations=violations)
        with open(os.path.join(VERIF, 'evidence', c.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

def main(chk, tier):
    r = Runner(chk, tier)
    try:
        v = r.run()
        r.evidence(1 if v else 0)
        log('%s %s: %d traces, %d events validated, %d states, %.1f s' % (chk.prop, 'VIOLATED' if v else 'holds', r.ntraces, r.nevents, r.states, time.time() - r.t0))
        return 1 if v else 0
    except ToolError as e:
        log('ERROR: %s' % e)
        return 2
    finally:
        r.work.close()
