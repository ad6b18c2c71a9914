#!/usr/bin/env python3
"""Driver: builds the real code of /repo to LLVM bitcode together with a harness,
runs the symbolic executor (engine/) on it, replays every counterexample (and a
sample of explored paths) against a native build, writes evidence.

  vc.py setup
  vc.py check PROP --tier quick|thorough
  vc.py run HARNESS [--tier ..]        (development: one harness, report on stdout)
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYMX_REPO', '/repo')
B = os.path.join(V, 'build')
CACHE = os.path.join(B, 'cache')
ENGINE = os.path.join(B, 'engine', 'symx')
CLANG = '/usr/bin/clang++-18'
LLVM = '/usr/lib/llvm-18/bin/'
BCF = ['-std=gnu++17', '-O2', '-DNDEBUG', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-fno-math-errno', '-DEIGEN_DONT_VECTORIZE', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-gmlt', '-fdebug-info-for-profiling', '-w', '-emit-llvm', '-DSYMX_SOLVER=1', '-fno-pic', '-fno-pie']
NATF = ['-std=gnu++17', '-O1', '-DNDEBUG', '-ffp-contract=off', '-w']
JOBS = int(os.environ.get('SYMX_JOBS', '8'))
T0 = time.time()

def log(*a):
    print('[%.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)

class BuildError(Exception): pass

# ------------------------------------------------------------------ building
_filehash = {}
def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return 'missing'
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in _filehash:
        _filehash[k] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    return _filehash[k]

def cached(cmd, src, ext, extra=''):
    """Compile 'src' with 'cmd' (which gets -c src -MD -MF d -o out); the result is
    cached by the contents of every file the compiler read."""
    os.makedirs(CACHE, exist_ok=True)
    key = hashlib.sha256(('\0'.join(cmd) + '\0' + src + '\0' + extra).encode()).hexdigest()[:24]
    idx = os.path.join(CACHE, key + '.idx')
    if os.path.exists(idx):
        try:
            d = json.load(open(idx))
            for ent in d:
                if os.path.exists(ent['out']) and all(fhash(p) == h for p, h in ent['deps']):
                    return ent['out'], [p for p, _ in ent['deps']]
        except ValueError:
            pass
    tmp = tempfile.mktemp(dir=CACHE, prefix='tmp')
    r = sh(cmd + ['-c', src, '-MD', '-MF', tmp + '.d', '-o', tmp + ext])
    if r.returncode != 0:
        raise BuildError('compiling %s failed:\n%s' % (src, r.stderr[:3000]))
    deps = open(tmp + '.d').read().split(':', 1)[1].replace('\\\n', ' ').split()
    deps = [[p, fhash(p)] for p in deps]
    h = hashlib.sha256(json.dumps([key, deps]).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, h + ext)
    os.replace(tmp + ext, out)
    os.unlink(tmp + '.d')
    json.dump([{'out': out, 'deps': deps}], open(idx + '.%d' % os.getpid(), 'w'))
    os.replace(idx + '.%d' % os.getpid(), idx)
    return out, [p for p, _ in deps]

def pool_map(f, xs):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(f, xs))

def ensure_engine():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'engine.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(['make', '-s', '-j4', '-C', os.path.join(V, 'engine'), 'B=' + os.path.join(B, 'engine')])
        if r.returncode:
            raise BuildError('engine build failed:\n' + r.stderr[-3000:])

def proto_shim():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'cartographer'))):
        for f in sorted(fs):
            if f.endswith('.proto'): h.update((d + f + fhash(os.path.join(d, f))).encode())
    h.update(fhash(os.path.join(V, 'rt/gen_proto.py')).encode())
    out = os.path.join(B, 'pbshim', h.hexdigest()[:16])
    if not os.path.exists(out + '/ok'):
        tmp = out + '.tmp%d' % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = sh([sys.executable, os.path.join(V, 'rt/gen_proto.py'), REPO, tmp])
        if r.returncode: raise BuildError('proto shim generation failed:\n' + r.stderr)
        open(tmp + '/ok', 'w').close()
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

def proto_real():
    """Real protoc output for the native build."""
    h = hashlib.sha256()
    protos = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'cartographer'))):
        if '/cloud' in d: continue
        for f in sorted(fs):
            if f.endswith('.proto'):
                h.update((d + f + fhash(os.path.join(d, f))).encode())
                protos.append(os.path.relpath(os.path.join(d, f), REPO))
    out = os.path.join(B, 'pbreal', h.hexdigest()[:16])
    if not os.path.exists(out + '/ok'):
        tmp = out + '.tmp%d' % os.getpid()
        os.makedirs(tmp + '/cartographer/common', exist_ok=True)
        r = sh(['protoc', '-I', REPO, '--cpp_out=' + tmp] + protos, cwd=REPO)
        if r.returncode: raise BuildError('protoc failed:\n' + r.stderr)
        shutil.copy(os.path.join(V, 'rt/shim/cartographer/common/config.h'), tmp + '/cartographer/common/config.h')
        open(tmp + '/ok', 'w').close()
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

def bc_cmd(pb, defs=()):
    inc = ['-I' + V + '/rt/shim', '-I' + V + '/rt', '-I' + pb, '-I' + REPO, '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/lua5.2']
    return [CLANG] + BCF + list(defs) + inc

IDENT = re.compile(r'([A-Za-z_]\w*)(?:\[abi:\w+\])?(?:\(|$)')
_all_cc = None
def all_cc():
    global _all_cc
    if _all_cc is None:
        _all_cc = {}
        for d, _, fs in os.walk(os.path.join(REPO, 'cartographer')):
            if '/cloud' in d: continue
            for f in fs:
                if f.endswith('.cc') and not f.endswith('_test.cc') and not f.endswith('_main.cc'):
                    p = os.path.join(d, f)
                    _all_cc[p] = open(p, errors='replace').read()
    return _all_cc

def build_bc(h, work):
    """Link harness + the repository sources it needs. Returns (bc, [repo sources])."""
    pb = proto_shim()
    cmd = bc_cmd(pb)
    hb, hdeps = cached(bc_cmd(pb, h.defs), h.src, '.bc')
    depsof = {}
    rb, _ = cached(cmd + ['-fno-builtin'], os.path.join(V, 'rt/rt.cc'), '.bc')
    srcs = []
    bcs = {}
    tried = {os.path.join(REPO, rel) for rel in h.opts.get('skip', '').split(',') if rel}  # included by the harness itself
    failed = []
    out = os.path.join(work, h.name + '.bc')
    extra = []
    for rel in h.opts.get('src', '').split(','):
        if rel: extra.append(os.path.join(REPO, rel))
    pending = list(extra)
    for it in range(20):
        def comp(p):
            try:
                o, depsof[p] = cached(cmd, p, '.bc')
                return p, o
            except BuildError as e: failed.append((p, str(e))); return p, None
        for p, o in pool_map(comp, pending):
            tried.add(p)
            if o: bcs[p] = o
        r = sh([LLVM + 'llvm-link', hb, rb] + list(bcs.values()) + ['-o', out + '.l'])
        if r.returncode: raise BuildError('llvm-link: ' + r.stderr[:2000])
        r = sh([LLVM + 'opt', '-passes=internalize,globaldce', '-internalize-public-api-list=symx_main', out + '.l', '-o', out])
        if r.returncode: raise BuildError('opt: ' + r.stderr[:2000])
        r = sh([LLVM + 'llvm-nm', '--undefined-only', '-j', out])
        und = [s for s in r.stdout.split() if 'cartographer' in s]
        if not und: break
        dem = sh(['c++filt'], input='\n'.join(und)).stdout.split('\n')
        # first the .cc siblings of headers read so far that mention the name, then
        # (only if that finds nothing new) any file that looks like a definition
        want = []
        for s in dem:
            if not s: continue
            s = re.sub(r'^(vtable|typeinfo|typeinfo name|VTT) for ', '', s)
            n = re.sub(r'\(.*', '', s.replace('(anonymous namespace)', 'anon')).replace('[abi:cxx11]', '')
            while '<' in n:
                m = re.sub(r'<[^<>]*>', '', n)
                if m == n: break
                n = m
            want.append(n.split(' ')[-1].split('::')[-2:])
        pending = []
        heads = set(hdeps)
        for p in bcs: heads |= set(depsof.get(p, ()))
        sib = [x[:-2] + '.cc' for x in heads if x.endswith('.h') and x.startswith(REPO + '/')]
        sib = [p for p in sib if p in all_cc() and p not in tried]
        good = []
        for p in sib:
            # the header must declare and the source mention one of the wanted names
            t = open(p[:-3] + '.h', errors='replace').read()
            if any(re.search(r'\b' + re.escape(w[-1].lstrip('~')) + r'\b', t) and re.search(r'\b' + re.escape(w[-1].lstrip('~')) + r'\b', all_cc()[p]) for w in want): good.append(p)
        pending = good
        if not pending:
            for w in want:
                i = w[-1]
                for p, t in all_cc().items():
                    if p in tried or p in pending: continue
                    if len(w) > 1 and w[0][:1].isupper():
                        if re.search(r'\b' + re.escape(w[0]) + r'(<[^>]*>)?::' + re.escape(i) + r'\b', t): pending.append(p)
                    elif re.search(r'^[\w:<>,&*\s\[\]]*\b' + re.escape(i) + r'\s*\(', t, re.M): pending.append(p)
        if not pending: break
    h.failed = failed
    os.unlink(out + '.l')
    h.undefined = und
    return out, sorted(bcs)

NATLIBS = None
def natlibs():
    global NATLIBS
    if NATLIBS is None:
        r = sh(['pkg-config', '--libs', 'absl_synchronization', 'absl_hash', 'absl_raw_hash_set', 'absl_strings', 'absl_str_format', 'absl_time', 'absl_throw_delegate'])
        NATLIBS = ['-lglog', '-lgflags'] + r.stdout.split() + ['-lprotobuf', '-lboost_iostreams', '-lz', '-lceres', '-llua5.2', '-lcairo', '-lpthread']
    return NATLIBS

def build_native(h, srcs, work, san=''):
    pb = proto_real()
    fl = NATF + (['-fsanitize=' + san, '-g1'] if san else [])
    inc = (['-I' + V + '/rt/shim_absl'] if 'mt' in h.opts else []) + (['-DSYMX_TSAN'] if 'mt' in h.opts and san == 'thread' else []) + ['-I' + V + '/rt', '-I' + pb, '-I' + REPO, '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/lua5.2']
    cmd = ['g++'] + fl + inc
    mt = ['-DSYMX_MT'] if 'mt' in h.opts and san != 'thread' else []
    jobs = [(cmd + list(h.defs) + mt, h.src), (cmd + mt, os.path.join(V, 'rt/native.cc'))] + [(cmd, s) for s in srcs]
    errs = []
    def comp(j):
        try: return cached(j[0], j[1], '.o')
        except BuildError as e: errs.append(str(e)); return None
    res = pool_map(comp, jobs)
    if errs: raise BuildError(errs[0])
    objs = [o for o, _ in res]
    pbs, todo = set(), set()
    for _, deps in res:
        for d in deps:
            if d.endswith('.pb.h') and d.startswith(pb): todo.add(d)
    while todo:
        new = [d for d in todo if d not in pbs]
        todo = set()
        r = pool_map(lambda d: cached(['g++', '-std=gnu++17', '-O0', '-w', '-I' + pb], d[:-2] + '.cc' if False else d.replace('.pb.h', '.pb.cc'), '.o'), new)
        for d, (o, deps) in zip(new, r):
            pbs.add(d); objs.append(o)
            for x in deps:
                if x.endswith('.pb.h') and x.startswith(pb) and x not in pbs: todo.add(x)
    exe = os.path.join(work, h.name + ('.' + san if san else '') + '.native')
    r = sh(['g++'] + fl + objs + ['-o', exe, '-Wl,--unresolved-symbols=ignore-all'] + natlibs())
    if r.returncode: raise BuildError('native link: ' + r.stderr[:2000])
    return exe

def run_native(exe, inputs, sched, work, lenient=False, timeout=60, mt=False):
    fd, p = tempfile.mkstemp(dir=work, suffix='.replay')
    with os.fdopen(fd, 'w') as f:
        f.write(replay_text(inputs, sched, lenient))
    return run_native_file(exe, p, timeout)

def replay_text(inputs, sched, lenient):
    t = ''
    if lenient: t += 'LENIENT\n'
    if sched: t += 'S ' + ' '.join(map(str, sched)) + '\n'
    for n, v in inputs: t += 'I %s %s\n' % (v, n)
    return t

def run_native_file(exe, p, timeout=60):
    scratch = tempfile.mkdtemp(prefix='symxrun')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=43:handle_abort=0', GLOG_logtostderr='1', TSAN_OPTIONS='exitcode=66')
    try:
        r = subprocess.run(['prlimit', '--core=0', exe, os.path.abspath(p)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=scratch, env=env)
        return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return -99, '', 'timeout'
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

# ------------------------------------------------------------------ harnesses
class Harness:
    def __init__(self, path, tier):
        self.src = path
        self.name = os.path.basename(path)[:-3]
        self.prop = self.name.split('_')[0]
        self.tier = tier
        self.opts = {}
        for line in open(path):
            if line.startswith('//@'):
                for tok in line[3:].split():
                    k, _, v = tok.partition('=')
                    self.opts[k] = v
        self.defs = ['-DTIER=%d' % (tier == 'thorough')]
        self.doc = [l[3:].strip() for l in open(path) if l.startswith('//#')]
        self.bounds = [l[3:].strip() for l in open(path) if l.startswith('//b')]
        self.stubs = [l[3:].strip() for l in open(path) if l.startswith('//s')]
        self.failed = []
    def pick(self, k, d):
        v = self.opts.get(k, d).split(',')
        return v[-1] if self.tier == 'thorough' else v[0]
    def parts(self):
        spec = self.opts.get('parts', '')
        if self.tier == 'thorough' and 'tparts' in self.opts: spec = self.opts['tparts']
        res = [[]]
        for s in filter(None, spec.split(';')):
            n, k = s.split(':')
            res = [p + ['--pin', '%s=%d' % (n, i)] for p in res for i in range(int(k))]
        return res

def harnesses(prop, tier):
    hs = []
    for p in sorted(glob.glob(os.path.join(V, 'harness', prop + '_*.cc'))):
        h = Harness(p, tier)
        if h.opts.get('only', tier) == tier: hs.append(h)
    return hs

def run_engine(h, bc, pins, ix, work):
    out = os.path.join(work, '%s.%d.json' % (h.name, ix))
    tm = float(h.pick('time', '120,600'))
    cmd = [ENGINE, bc, '-o', out, '--time', str(tm), '--qtimeout', h.pick('qtimeout', '20000'), '--exttimeout', h.pick('exttimeout', '60'), '--samples', h.pick('samples', '4')] + pins
    if 'real' in h.opts: cmd.append('--real')
    if 'preempt' in h.opts: cmd += ['--preempt', h.pick('preempt', '2')]
    def lim():
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tm * 1.5 + 200, preexec_fn=lim)
        rc, err = r.returncode, r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        rc, err = -99, 'engine timeout'
    try:
        j = json.load(open(out))
    except Exception:
        j = {'incomplete': ['engine failed rc=%d: %s' % (rc, err[-400:])], 'violations': [], 'samples': [], 'assert_hits': {}, 'assert_proved': {}, 'reach': {}, 'functions': [], 'paths': 0}
    j['pins'] = pins[1::2]
    j['stderr'] = err[-500:]
    return j

def confirm(h, v, native, srcs, work):
    """Replay a counterexample natively. Returns (confirmed, text)."""
    kind = v['kind']
    lenient = 'real' in h.opts
    if kind == 'race':
        exe = build_native(h, srcs, work, 'thread') if 'tsan' not in h.opts or h.opts['tsan'] != 'off' else None
        if exe is None: return False, 'no native confirmation for races here'
        for i in range(30):
            rc, o, e = run_native(exe, v['inputs'], [], work, lenient)
            if rc == 66 or 'data race' in e: return True, 'ThreadSanitizer: ' + e[:600]
        return False, 'ThreadSanitizer saw no race in 30 runs'
    if kind == 'memory':
        exe = build_native(h, srcs, work, 'address')
    else:
        exe = native
    rc, o, e = run_native(exe, v['inputs'], v['sched'], work, lenient)
    bad = rc in (42, 43, 44) or rc < 0 and rc != -99
    if rc == -99 and kind in ('deadlock',): bad = True
    return bad, 'rc=%d %s %s' % (rc, o.strip()[-300:], e.strip()[-500:])

def run_harness_set(hs, tier, validate=True):
    """Build, execute and confirm. Returns list of per-harness results."""
    ensure_engine()
    os.makedirs(os.path.join(B, 'work'), exist_ok=True)
    work = tempfile.mkdtemp(dir=os.path.join(B, 'work'))
    results = []
    try:
        built = []
        errors = []
        for h in hs:
            try:
                bc, srcs = build_bc(h, work)
                built.append((h, bc, srcs))
            except BuildError as e:
                errors.append((h.name, str(e)))
        log('built %d harnesses' % len(built))
        jobs = [(h, bc, pins, i) for h, bc, srcs in built for i, pins in enumerate(h.parts())]
        jobs.sort(key=lambda j: -float(j[0].opts.get('cost', j[0].pick('time', '120,600'))))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [(j[0].name, ex.submit(run_engine, j[0], j[1], j[2], j[3], work)) for j in jobs]
            natives = {}
            for h, bc, srcs in built:
                if 'native' in h.opts and h.opts['native'] == 'off': continue
                try:
                    natives[h.name] = build_native(h, srcs, work) if validate else None
                except BuildError as e:
                    natives[h.name] = None
                    h.native_error = str(e)[:500]
                    log('native build failed', h.name, str(e)[:1500])
            outs = {}
            for n, f in futs: outs.setdefault(n, []).append(f.result())
        for h, bc, srcs in built:
            res = {'h': h, 'srcs': srcs, 'runs': outs[h.name], 'confirmed': [], 'spurious': [], 'validated': 0, 'mismatch': []}
            seen = set()
            for r in outs[h.name]:
                for v in r['violations']:
                    if v['kind'] + v['label'] in seen: continue
                    try:
                        if natives.get(h.name) is None and v['kind'] not in ('memory', 'race'): natives[h.name] = build_native(h, srcs, work)
                        ok, txt = confirm(h, v, natives.get(h.name), srcs, work)
                    except BuildError as e:
                        ok, txt = False, 'native build failed: ' + str(e)[:800]
                    v['native'] = txt
                    if ok:
                        seen.add(v['kind'] + v['label'])
                        res['confirmed'].append(v)
                    else: res['spurious'].append(v)
                if natives.get(h.name) and not 'real' in h.opts:
                    for s in r['samples']:
                        if s.get('end') not in ('done', 'expected crash'): continue
                        rc, o, e = run_native(natives[h.name], s['inputs'], s['sched'], work)
                        obs = [l.split(' ')[1:] for l in o.split('\n') if l.startswith('OBS ')]
                        exp = [[a, b] for a, b in s['obs']]
                        if s['end'] == 'expected crash': good = rc == 0 and 'EXPECTED-CRASH' in o
                        else: good = rc == 0 and (s['uf'] or [' '.join(x[:-1]) for x in obs] == [a for a, _ in exp] and [x[-1] for x in obs] == [b for _, b in exp])
                        if good: res['validated'] += 1
                        else: res['mismatch'].append({'inputs': s['inputs'], 'expected': exp, 'native': o[-400:], 'rc': rc, 'stderr': e[-300:]})
            results.append(res)
        return results, errors
    finally:
        shutil.rmtree(work, ignore_errors=True)

# ------------------------------------------------------------------ checks
def known_findings():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def check(prop, tier):
    t0 = time.time()
    hs = harnesses(prop, tier)
    if not hs:
        print('no harness for', prop); return 2
    results, errors = run_harness_set(hs, tier)
    rdir = os.path.join(B, 'replay', prop)
    rc = 0
    kf = [k for k in known_findings() if k.get('property') == prop and k.get('status') != 'fixed']
    kf_hit = set()
    viol = 0
    lines = []
    for res in results:
        h = res['h']
        for v in res['confirmed']:
            match = next((k for k in kf if k['harness'] == h.name and k['label'] == v['label']), None)
            if match:
                kf_hit.add(match['id'])
                continue
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, '%s-%s.json' % (h.name, hashlib.sha256((v['kind'] + v['label']).encode()).hexdigest()[:8]))
            json.dump({'harness': h.name, 'tier': tier, 'violation': v}, open(p, 'w'), indent=1)
            txt = p[:-5] + '.replay'
            open(txt, 'w').write(replay_text(v['inputs'], v['sched'], 'real' in h.opts))
            lines.append('VIOLATION property=%s replay=%s' % (prop, p))
            lines.append('  harness %s: %s: %s  (%s)' % (h.name, v['kind'], v['label'], v['where']))
            lines.append('  native replay: ' + v['native'].replace('\n', ' ')[:400])
            viol += 1
            rc = 1
    for k in kf:
        if k['id'] in kf_hit: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for l in lines: print(l)
    ev = evidence(prop, tier, results, errors, time.time() - t0, viol)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for n, e in errors: print('ERROR %s: %s' % (n, e), file=sys.stderr)
    if rc == 0 and errors: rc = 2
    c = ev['coverage']
    print('%s %s: %s paths=%d queries=%d unsat=%d solver=%.1fs asserts_proved=%d validated=%d%s wall=%.1fs' % (prop, tier, 'VIOLATED' if viol else ('ok' if not errors else 'error'), c['paths'], c['queries'], c['unsat'], c['solver_s'], c['assertions_discharged'], c['traces_validated_against_impl'], ' INCOMPLETE' if c['incomplete'] else '', ev['wall_s']))
    if os.environ.get('SYMX_VERBOSE') or '-v' in sys.argv:
        for res in results:
            for v in res['spurious']: print('  not reproduced natively:', res['h'].name, v['kind'], v['label'], v['native'][:300])
            for m in res['mismatch'][:2]: print('  sample mismatch:', res['h'].name, json.dumps(m)[:600])
        print('  incomplete:', c['incomplete'][:5])
    return rc

def evidence(prop, tier, results, errors, wall, viol):
    tot = lambda k: sum(r.get(k, 0) for res in results for r in res['runs'])
    funcs = sorted({f for res in results for r in res['runs'] for f in r['functions']})
    per = []
    samples = []
    for res in results:
        h = res['h']
        inc = sorted({i for r in res['runs'] for i in r['incomplete']})
        reach = {}
        hits, proved = {}, {}
        for r in res['runs']:
            for k, v in r['reach'].items(): reach[k] = reach.get(k, 0) + v
            for k, v in r['assert_hits'].items(): hits[k] = hits.get(k, 0) + v
            for k, v in r['assert_proved'].items(): proved[k] = proved.get(k, 0) + v
            for s in r['samples'][:1]:
                if len(samples) < 12: samples.append({'harness': h.name, 'inputs': s['inputs'][:30], 'observed': s['obs'][:20]})
        labels = set(re.findall(r'symx_reach\("([^"]+)"\)', open(h.src).read()))
        per.append({'harness': h.name, 'what': ' '.join(h.doc), 'bounds': h.bounds, 'models': h.stubs, 'complete': not inc, 'incomplete': inc, 'paths': sum(r['paths'] for r in res['runs']),
                    'queries': sum(r.get('queries', 0) for r in res['runs']), 'solver_s': round(sum(r.get('solver_s', 0) for r in res['runs']), 2), 'max_query_s': round(max([r.get('solver_max_s', 0) for r in res['runs']] + [0]), 2), 'wall_s': round(max([r.get('wall_s', 0) for r in res['runs']] + [0]), 1),
                    'assertions': {k: {'reached': hits[k], 'discharged': proved.get(k, 0)} for k in sorted(hits)}, 'witnesses_reached': reach, 'witnesses_missed': sorted(labels - set(reach)),
                    'arithmetic': 'reals' if 'real' in h.opts else 'exact bit-vectors / IEEE-754', 'repo_sources': [os.path.relpath(s, REPO) for s in res['srcs']], 'engine_parts': len(res['runs']),
                    'not_reproduced': [{'kind': v['kind'], 'label': v['label'], 'native': v['native'][:200]} for v in res['spurious']], 'validated_paths': res['validated'], 'sample_mismatches': res['mismatch'][:3]})
    man = {}
    try: man = {c['property']: c for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']}.get(prop, {})
    except Exception: pass
    incomplete = sorted({i for p in per for i in p['incomplete']})
    val = sum(r['validated'] for r in results)
    npaths = int(tot('paths'))
    cov = {'paths': npaths, 'states': npaths, 'transitions': int(tot('forks')), 'instructions': int(tot('instructions')), 'queries': int(tot('queries')), 'sat': int(tot('sat')), 'unsat': int(tot('unsat')), 'unknown': int(tot('unknown')), 'interval_facts': int(tot('interval_facts')), 'interval_facts_confirmed_by_solver': int(tot('interval_facts_confirmed')), 'solver_s': round(tot('solver_s'), 2),
           'assertions_discharged': sum(sum(r['assert_proved'].values()) for res in results for r in res['runs']), 'traces_validated_against_impl': val, 'functions_encoded': funcs, 'n_functions_encoded': len(funcs), 'harnesses': per, 'incomplete': incomplete + ['build: ' + n for n, _ in errors], 'samples': samples,
           'explanation': 'Symbolic execution of the LLVM bitcode of the real sources; every assertion on every path is decided by an SMT query (unsat of path condition and negated assertion) over all inputs within the stated bounds.'}
    return {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': man.get('level', 'model_checking'), 'coverage': cov,
            'assumptions': ['clang 18 -O2 bitcode stands for the g++ build (sampled paths are replayed natively)', 'dependency shims listed per harness and in DESIGN.md'] + sorted({s for p in per for s in p['models']}), 'violations': viol, 'wall_s': round(wall, 1)}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('what', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.cmd == 'setup':
        ensure_engine()
        proto_shim(); proto_real()
        pb = proto_shim()
        cached(bc_cmd(pb) + ['-fno-builtin'], os.path.join(V, 'rt/rt.cc'), '.bc')
        return 0
    if a.cmd == 'check':
        try:
            return check(a.what, a.tier)
        except BuildError as e:
            print('ERROR', e, file=sys.stderr)
            return 2
    if a.cmd == 'run':
        hs = [Harness(p, a.tier) for p in sorted(glob.glob(os.path.join(V, 'harness', a.what + '*.cc')))]
        results, errors = run_harness_set(hs, a.tier, not a.no_native)
        for n, e in errors: print('ERROR', n, e)
        for res in results:
            h = res['h']
            print('==', h.name, 'sources:', [os.path.relpath(s, REPO) for s in res['srcs']], 'undefined:', len(h.undefined), 'failed:', [f[0] for f in h.failed])
            for r in res['runs']:
                print('  part', r['pins'], 'paths', r['paths'], 'cut', r.get('paths_cut_by_assume'), 'queries', r.get('queries'), 'unk', r.get('unknown'), 'folds %d/%d' % (r.get('interval_facts_confirmed', 0), r.get('interval_facts', 0)), 'solver %.1f max %.1f wall %.1f' % (r.get('solver_s', 0), r.get('solver_max_s', 0), r.get('wall_s', 0)), 'instr', r.get('instructions'))
                print('    asserts', {k: '%d/%d' % (r['assert_proved'].get(k, 0), n) for k, n in r['assert_hits'].items()}, 'reach', r['reach'])
                if r['incomplete']: print('    INCOMPLETE', [x[:400] for x in r['incomplete'][:6]])
                if r['stderr'].strip(): print('    stderr', r['stderr'][-300:])
            print('  functions:', len({f for r in res['runs'] for f in r['functions']}))
            if a.v: print('\n'.join(sorted({f for r in res['runs'] for f in r['functions']})))
            for v in res['confirmed']: print('  CONFIRMED', v['kind'], v['label'][-300:], v['where'][-200:], v['inputs'][:40], v['sched'], v['native'][:300])
            for v in res['spurious']: print('  SPURIOUS', v['kind'], v['label'][-300:], v['where'][-200:], v['inputs'][:40], v['native'][:300], '\n     ', '\n      '.join(x[-200:] for x in v['stack'][:6]))
            print('  validated', res['validated'], 'mismatch', len(res['mismatch']), json.dumps(res['mismatch'][:1])[:800])
        return 0
    return 2
sys.exit(main())
