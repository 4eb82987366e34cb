#!/usr/bin/env python3
"""Solver-based check of one property of /repo.

  check.py <PROPERTY> quick|thorough [--entry check_x ...] [--keep]

Compiles the property's harness(es) and the real sources they name from /repo's working tree to LLVM bitcode, links them with
the runtime model, runs the symbolic executor (engine/) on every check_* entry, replays sampled paths and every counterexample
on a native build of the same sources, and writes evidence/<PROPERTY>.json.
Exit: 0 held, 1 violation (reproduced natively), 2 no answer.
"""
import sys, os, re, json, subprocess, hashlib, time, glob, shutil, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
CLANG_FLAGS = ('-std=c++11 -O1 -DSYMX=1 -fno-access-control -fwrapv -fno-strict-aliasing -ffp-contract=off -fno-vectorize '
               '-fno-slp-vectorize -fno-builtin -ftrivial-auto-var-init=pattern -w').split()
GXX_FLAGS = ('-std=c++11 -O0 -g1 -DSYMX_NATIVE=1 -fno-access-control -fwrapv -fno-strict-aliasing -ftrivial-auto-var-init=pattern -w -fPIC').split()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cachedir():
    for d in (os.environ.get('VERIF_CACHE'), os.path.join(VERIF, '.cache'), '/tmp/verif-cache.%d' % os.getuid()):
        if not d:
            continue
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, '.w%d' % os.getpid())
            open(t, 'w').close()
            os.unlink(t)
            return d
        except OSError:
            pass
    return tempfile.mkdtemp()


CACHE = cachedir()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def fsha(p):
    with open(p, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


class BuildError(Exception):
    pass


# ------------------------------------------------------------------------------------------------ build helpers
def include_dirs():
    inc = []
    for base in ('core/lib', 'ext/lib'):
        for d, sub, files in os.walk(os.path.join(REPO, base)):
            if any(f.endswith(('.hpp', '.h')) for f in files):
                inc.append(d)
    inc.sort()
    gen = os.path.join(REPO, '_build/generated')
    if not os.path.exists(os.path.join(gen, 'build_config.h')):
        gen = os.path.join(CACHE, 'generated')
        os.makedirs(gen, exist_ok=True)
        txt = ''
        for t in glob.glob(os.path.join(REPO, '**', 'build_config.h.in'), recursive=True):
            txt = re.sub(r'@[A-Za-z_]*SOURCE_DIR@', '/repo', open(t).read())
            txt = re.sub(r'[@$]\{?[A-Za-z_]+\}?@?', '/repo/_build', txt)
        with open(os.path.join(gen, 'build_config.h'), 'w') as f:
            f.write(txt)
    inc.append(gen)
    return inc


def build_engine():
    eng = os.path.join(VERIF, 'engine')
    srcs = sorted(glob.glob(eng + '/*.cpp') + glob.glob(eng + '/*.h') + [eng + '/Makefile'])
    key = sha(*[fsha(s) for s in srcs])[:24]
    out = os.path.join(CACHE, 'engine-' + key)
    binp = os.path.join(out, 'symx')
    if os.path.exists(binp):
        return binp
    with open(os.path.join(CACHE, 'engine.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(binp):
            return binp
        for old in glob.glob(os.path.join(CACHE, 'engine-*')):
            shutil.rmtree(old, ignore_errors=True)
        tmp = out + '.tmp'
        os.makedirs(tmp, exist_ok=True)
        r = sh(['make', '-s', '-C', eng, '-j8', 'OUT=' + tmp])
        if r.returncode:
            raise BuildError('engine build failed:\n' + r.stderr[-4000:])
        for o in glob.glob(tmp + '/*.o'):
            os.unlink(o)
        os.rename(tmp, out)
    return binp


def compile_one(kind, src, flags, inc):
    """kind: bc|o|asan.  Cached by content of the source and of all non-system headers."""
    comp = ['clang++'] if kind == 'bc' else ['g++']
    ext = '.bc' if kind == 'bc' else '.o'
    base = os.path.join(CACHE, 'obj', sha(kind, src, ' '.join(flags), ' '.join(inc))[:24])
    out = base + ext
    dep = base + '.dep'
    try:
        with open(dep) as f:
            d = json.load(f)
        if os.path.exists(out) and all(os.path.exists(p) and fsha(p) == h for p, h in d.items()):
            return out
    except (OSError, ValueError):
        pass
    mk = '%s.%d.d' % (base, os.getpid())
    tmp = '%s.%d%s' % (base, os.getpid(), ext)
    cmd = comp + flags + (['-emit-llvm'] if kind == 'bc' else []) + ['-I' + i for i in inc] + ['-MMD', '-MF', mk, '-c', src, '-o', tmp]
    if src.endswith('.c'):
        cmd = [('clang' if kind == 'bc' else 'gcc')] + [c for c in cmd[1:] if not c.startswith('-std=') and c not in ('-fno-access-control',)]
    r = sh(cmd)
    if r.returncode:
        raise BuildError('compiling %s (%s) failed:\n%s' % (src, kind, r.stderr[-3000:]))
    txt = open(mk).read().replace('\\\n', ' ')
    files = [p for p in txt.split(':', 1)[1].split() if not p.startswith('/usr/')]
    os.unlink(mk)
    os.rename(tmp, out)
    with open(dep + '.%d' % os.getpid(), 'w') as f:
        json.dump({p: fsha(p) for p in files}, f)
    os.rename(dep + '.%d' % os.getpid(), dep)
    return out


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        txt = open(path).read()
        g = lambda k: re.findall(r'^//\s*%s:\s*(.*)$' % k, txt, re.M)
        self.prop = g('PROPERTY')[0].strip()
        self.src = ' '.join(g('SRC')).split()
        self.bounds = g('BOUND')
        self.outside = g('OUTSIDE')
        self.assume = g('ASSUMES')
        self.opts = dict(o.split('=') for l in g('OPT') for o in l.split())
        self.optional = {x.strip() for l in g('OPTIONAL') for x in l.split(';')}      # ids that need not be reached
        self.entries = re.findall(r'^\s*ENTRY\s+(check_\w+)\s*\(', txt, re.M)
        self.tentries = set(re.findall(r'^\s*ENTRY\s+(check_t_\w+)\s*\(', txt, re.M))
        self.ids = set(re.findall(r'(?:ASSERT|NOTHROW|MUSTTHROW|COVER|CHECK\w*)\s*\([^;]*?"([^"\n]+)"\s*\)\s*;', txt))
        self.ids = {i for i in self.ids if not i.startswith(' ')}   # assembled inside macros


def find_definition(sym):
    """repository .cpp files that define the given (demangled) function"""
    s = re.sub(r'\(anonymous namespace\)::', '', sym)
    n = s.split('(')[0]
    n = re.sub(r'\[abi:\w+\]', '', n)
    n = re.sub(r'^(vtable for|typeinfo for|typeinfo name for|VTT for|guard variable for) ', '', n).strip()
    n = n.split(' ')[-1] if '<' not in n else n
    parts = n.split('::')
    if parts and parts[0] == 'gpstk':
        parts = parts[1:]
    if not parts:
        return []
    cls = parts[-2] if len(parts) > 1 else None
    meth = parts[-1]
    pats = []
    if cls:
        pats.append(r'\b%s\s*::\s*%s\s*\(' % (re.escape(cls), re.escape(meth)))
        pats.append(r'\b%s\s*::\s*%s\b' % (re.escape(cls), re.escape(meth)))
        pats.append(r'\b%s\s*::\s*[~\w]+\s*\(' % re.escape(meth))
    pats.append(r'\b%s\s*\(' % re.escape(meth))
    cpps = [p for b in ('core/lib', 'ext/lib') for p in glob.glob(os.path.join(REPO, b, '**', '*.cpp'), recursive=True)]
    if re.match(r'(vtable|typeinfo|typeinfo name|VTT) for ', s):
        pats = [r'\b%s\s*::\s*~?\w+\s*\(' % re.escape(meth)]
        same = [p for p in cpps if os.path.basename(p) == meth + '.cpp']
        if same:
            return same[:1]
    for pat in pats:
        rx = re.compile(pat)
        hits = []
        for p in cpps:
            t = open(p, errors='replace').read()
            if rx.search(t):
                hits.append(p)
        if hits:
            hits.sort(key=lambda p: (os.path.basename(p)[:-4] != (cls or meth), len(p)))
            return hits[:3]
    return []


def link(h, bcs, rtbc, work):
    main = os.path.join(work, h.name + '.all.bc')
    r = sh([LLVM + 'llvm-link', *bcs, rtbc, '-o', main])
    if r.returncode:
        # duplicate strong symbols etc.
        r = sh([LLVM + 'llvm-link', '--internalize', *bcs, rtbc, '-o', main])
        if r.returncode:
            raise BuildError('llvm-link: ' + r.stderr[-2000:])
    out = os.path.join(work, h.name + '.bc')
    r = sh([LLVM + 'opt', '-passes=internalize,globaldce,function(scalarizer),globaldce', '-internalize-public-api-list=' + ','.join(h.entries), main, '-o', out])
    if r.returncode:
        raise BuildError('opt: ' + r.stderr[-2000:])
    os.unlink(main)
    return out


# ------------------------------------------------------------------------------------------------ native runs
_sys = None


def sys_symbols():
    global _sys
    if _sys is None:
        _sys = set()
        for lib in ('libstdc++.so.6', 'libc.so.6', 'libm.so.6', 'libgcc_s.so.1', 'ld-linux-x86-64.so.2'):
            for d in ('/lib/x86_64-linux-gnu', '/usr/lib/x86_64-linux-gnu', '/lib64'):
                p = os.path.join(d, lib)
                if os.path.exists(p):
                    for l in sh(['nm', '-D', '--defined-only', p]).stdout.split('\n'):
                        if l.strip():
                            _sys.add(l.split()[-1].split('@')[0])
                    break
    return _sys


def stubs(objs, work, kind):
    """definitions that trap (code) or are zero (data) for symbols none of the objects defines"""
    und, dfn = set(), set()
    for l in sh(['nm', '-A', *objs]).stdout.split('\n'):
        f = l.split()
        if len(f) < 2:
            continue
        if f[-2] == 'U':
            und.add(f[-1])
        elif len(f[-2]) == 1 and f[-2] not in 'wv':
            dfn.add(f[-1])
    miss = sorted(s for s in und - dfn - sys_symbols() if not s.startswith(('__asan', '__ubsan', '__sanitizer', '_GLOBAL_OFFSET', '__dso_handle', '__tls_get')))
    src = os.path.join(work, 'stubs.%s.s' % kind)
    with open(src, 'w') as f:
        f.write('.section .stubs,"awx"\n')
        for m in miss:
            f.write('.balign 64\n.globl "%s"\n"%s":\nud2\n.zero 510\n' % (m, m))
        f.write('.section .note.GNU-stack,"",@progbits\n')
    o = src[:-2] + '.o'
    r = sh(['gcc', '-c', src, '-o', o])
    if r.returncode:
        raise BuildError('stubs: ' + r.stderr[-1000:])
    return o


class Native:
    def __init__(self, h, srcs, inc, work):
        self.h, self.srcs, self.inc, self.work, self.bins = h, srcs, inc, work, {}

    def build(self, kind):
        if kind in self.bins:
            return self.bins[kind]
        fl = GXX_FLAGS + (['-fsanitize=address,undefined', '-fno-sanitize=vptr,signed-integer-overflow,shift', '-fno-sanitize-recover=undefined'] if kind == 'asan' else [])
        files = [self.h.path] + self.srcs + [os.path.join(VERIF, 'rt/native.cpp')]
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(lambda s: compile_one('o' if kind == 'plain' else 'asan', s, fl, [os.path.join(VERIF, 'rt'), os.path.join(VERIF, 'harness')] + self.inc), files))
        objs.append(stubs(objs, self.work, kind))
        out = os.path.join(self.work, '%s.%s' % (self.h.name, kind))
        r = sh(['g++', *(['-fsanitize=address,undefined'] if kind == 'asan' else []), *objs, '-o', out, '-rdynamic', '-no-pie', '-ldl',
                '-Wl,--unresolved-symbols=ignore-all', '-Wl,--allow-multiple-definition'])
        if r.returncode:
            raise BuildError('native link: ' + r.stderr[-2000:])
        self.bins[kind] = out
        return out

    def run(self, kind, entry, model, opts, timeout=20):
        b = self.build(kind)
        fd, mf = tempfile.mkstemp(dir=self.work, suffix='.model')
        with os.fdopen(fd, 'w') as f:
            for k, v in model.items():
                f.write('%s %s\n' % (k, v))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1', TZ='UTC', LC_ALL='C')
        cwd = tempfile.mkdtemp(dir=self.work)
        try:
            r = sh([b, entry, mf] + ['%s=%s' % kv for kv in opts.items()], timeout=timeout, env=env, cwd=cwd)
            return r.returncode, r.stdout, r.stderr, mf
        except subprocess.TimeoutExpired:
            return 'timeout', '', '', mf


# ------------------------------------------------------------------------------------------------ main
def run_harness(h, tier, engine, inc, rtbc, work, only, budget):
    res = {'harness': h.name, 'errors': [], 'violations': [], 'entries': {}, 'known': [], 'mismatch': []}
    srcs = []
    for s in h.src:
        p = os.path.join(REPO, s)
        if os.path.exists(p):
            srcs.append(p)
        else:
            log('note: %s is not in the tree' % s)
    hinc = [os.path.join(VERIF, 'rt'), os.path.join(VERIF, 'harness')] + inc
    entries = [e for e in h.entries if tier == 'thorough' or e not in h.tentries]
    if only:
        entries = [e for e in entries if e in only]
    eopts = {'tier': 1 if tier == 'thorough' else 0}
    outs = None
    t0 = time.time()
    for attempt in range(8):
        with ThreadPoolExecutor(JOBS) as ex:
            bcs = list(ex.map(lambda s: compile_one('bc', s, CLANG_FLAGS, hinc), [h.path] + srcs))
        bc = link(h, bcs, rtbc, work)
        outd = os.path.join(work, 'out.' + h.name)
        shutil.rmtree(outd, ignore_errors=True)
        os.makedirs(outd)
        cmd = [engine, bc, '--out', outd, '--jobs', str(JOBS), '--timeout', str(budget)]
        hopts = dict(h.opts)
        qt = hopts.pop('query-timeout', None)
        pt = hopts.pop('portfolio-timeout', None)
        fm = hopts.pop('fpmode', None)
        if qt: cmd += ['--query-timeout', qt]
        if pt: cmd += ['--portfolio-timeout', pt]
        if os.environ.get('VERIF_DUMP'): cmd += ['--dump', os.environ['VERIF_DUMP']]
        if fm: cmd += ['--fpmode', fm]
        for k, v in list(hopts.items()) + list(eopts.items()):
            cmd += ['--opt', '%s=%s' % (k, v)]
        # largest first would be better for packing, order of the file is used
        log('[%s] compiled %d files in %.1fs; running %d entries' % (h.name, len(bcs), time.time() - t0, len(entries)))
        r = sh(cmd + entries, timeout=(budget + 30) * (1 + len(entries) // JOBS) + 60)
        if r.stderr.strip():
            log(r.stderr[-6000:])
        outs = {}
        missing = set()
        for e in entries:
            p = os.path.join(outd, e + '.json')
            if not os.path.exists(p):
                continue
            outs[e] = json.load(open(p))
            for m in outs[e]['inconclusive']:
                x = re.match(r'(?:undefined function|undefined global) (\S+)', m)
                if x:
                    missing.add(x.group(1))
        if not outs and 'undefined' in r.stderr:
            missing |= set(re.findall(r'undefined (?:function|global) (\S+)', r.stderr))
        added = False
        for m in missing:
            dm = sh(['c++filt', '-n', m]).stdout.strip() if m.startswith('_Z') else m
            for p in find_definition(dm):
                if p not in srcs:
                    srcs.append(p)
                    added = True
                    log('[%s] adding %s for %s' % (h.name, os.path.relpath(p, REPO), dm))
                    break
        if not added:
            break
    nat = Native(h, srcs, inc, work)
    nopts = dict(eopts)
    for e in entries:
        if e not in outs:
            res['errors'].append('%s: no result from the executor (%s)' % (e, r.stderr[-500:]))
            continue
        o = outs[e]
        o['validated'] = 0
        for m in o['inconclusive']:
            res['errors'].append('%s: %s' % (e, m))
    # trace validation
    try:
        nat.build('plain')
        jobs = [(e, t) for e in entries if e in outs for t in outs[e]['traces'][:6 if tier == 'quick' else 12]]

        def val(j):
            e, t = j
            rc, so, se, mf = nat.run('plain', e, t['model'], nopts)
            return e, t, rc, so, se
        with ThreadPoolExecutor(JOBS) as ex:
            for e, t, rc, so, se in ex.map(val, jobs):
                obs = [l.split(' ')[1:] for l in so.split('\n') if l.startswith('OBS ')]
                want = [[a, b] for a, b in t['obs']]
                norm = lambda l: [[a, int(b, 16)] for a, b in l]
                fails = [l[12:] for l in so.split('\n') if l.startswith('ASSERT-FAIL ')]
                known_ids = {v['id'] for v in outs[e]['violations']}
                if rc == 'timeout' or (norm(obs) != norm(want)) or (rc != 0 and not (rc == 1 and set(fails) <= known_ids)):
                    res['mismatch'].append({'entry': e, 'rc': rc, 'model': t['model'], 'native': obs, 'engine': want, 'out': so[-500:], 'err': se[-500:]})
                else:
                    outs[e]['validated'] += 1
    except BuildError as x:
        res['errors'].append(str(x))
    # counterexamples
    for e in entries:
        for v in outs.get(e, {}).get('violations', []):
            rep = None
            kinds = ['asan', 'plain'] if v['kind'] in ('memory', 'uninit', 'arith') else ['plain', 'asan']
            try:
                for k in kinds:
                    rc, so, se, mf = nat.run(k, e, v['model'], nopts, timeout=60)
                    fails = [l[12:] for l in so.split('\n') if l.startswith('ASSERT-FAIL ')]
                    if v['kind'] == 'assert' and v['id'] in fails:
                        rep = (k, 'assertion fails natively'); break
                    if v['kind'] != 'assert':
                        if rc == 99 or 'runtime error' in se or 'AddressSanitizer' in se:
                            rep = (k, 'sanitizer: ' + next((l for l in se.split('\n') if 'ERROR' in l or 'runtime error' in l), '')); break
                        if rc == 4 or 'UNCAUGHT' in so:
                            rep = (k, 'uncaught exception natively'); break
                        if isinstance(rc, int) and (rc < 0 or rc in (134, 136, 139)):
                            rep = (k, 'crash natively rc=%s' % rc); break
                        if rc == 'timeout' and v['kind'] == 'hang':
                            rep = (k, 'does not terminate natively'); break
            except BuildError as x:
                res['errors'].append(str(x))
            v['entry'] = e
            if rep:
                v['reproduced'] = rep
                res['violations'].append(v)
            else:
                res['errors'].append('%s: counterexample for %s (%s) was not reproduced natively: %s' % (e, v['id'], v['msg'], json.dumps(v['model'])[:400]))
                v['unreproduced'] = True
    res['entries'] = outs
    res['srcs'] = [os.path.relpath(s, REPO) for s in srcs]
    res['native'] = nat
    return res


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == '--setup':
        build_engine()
        os.makedirs(os.path.join(CACHE, 'obj'), exist_ok=True)
        compile_one('bc', os.path.join(VERIF, 'rt/rt.cpp'), CLANG_FLAGS, [os.path.join(VERIF, 'rt')])
        log('engine and runtime built in ' + CACHE)
        return 0
    prop = sys.argv[1]
    tier = 'quick'
    only, keep = [], False
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'): tier = a
        elif a == '--entry': only.append(args.pop(0))
        elif a == '--keep': keep = True
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(CACHE, 'obj'), exist_ok=True)
    hs = [Harness(p) for p in sorted(glob.glob(os.path.join(VERIF, 'harness', prop + '*.cpp')))]
    hs = [h for h in hs if h.prop == prop]
    if not hs:
        log('no harness for ' + prop)
        return 2
    inc = include_dirs()
    work = tempfile.mkdtemp(prefix='symx-%s-' % prop)
    known = []
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get('known', []) if k['property'] == prop]
    rc = 0
    try:
        with ThreadPoolExecutor(4) as ex:
            f1 = ex.submit(build_engine)
            f2 = ex.submit(compile_one, 'bc', os.path.join(VERIF, 'rt/rt.cpp'), CLANG_FLAGS, [os.path.join(VERIF, 'rt')])
            engine, rtbc = f1.result(), f2.result()
        total_budget = float(os.environ.get('VERIF_BUDGET', '780' if tier == 'quick' else '6000'))
        results = []
        for h in hs:
            left = max(60, total_budget - (time.time() - t0))
            results.append(run_harness(h, tier, engine, inc, rtbc, work, only, left / (len(hs) - len(results))))
        viol, errs, knownhit = [], [], []
        for h, r in zip(hs, results):
            errs += ['%s: %s' % (h.name, e) for e in r['errors']]
            for m in r['mismatch']:
                errs.append('%s: %s: native run differs from the symbolic path: %s' % (h.name, m['entry'], json.dumps(m)[:1200]))
            for v in r['violations']:
                k = [k for k in known if k['id'] == v['id'] and k.get('entry', v['entry']) == v['entry']]
                (knownhit if k else viol).append((h, r, v, k))
            ran = [e for e in h.entries if e in r['entries']]
            reached = set()
            for e in ran:
                reached |= set(r['entries'][e]['reached']) | set(r['entries'][e]['covers'])
                if r['entries'][e]['paths'] == 0 and not r['entries'][e]['violations'] and not r['entries'][e]['inconclusive']:
                    errs.append('%s: no path of %s completes' % (h.name, e))
            if any(r['entries'][e]['inconclusive'] for e in ran):
                continue
            if not only and tier == 'thorough' or (not only and not h.tentries):
                for i in sorted(h.ids - reached - h.optional):
                    if not r['violations']:
                        errs.append('%s: assertion or cover point "%s" is never reached' % (h.name, i))
        # output
        seen = set()
        for h, r, v, k in knownhit:
            if k[0]['id'] not in seen:
                print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
                seen.add(k[0]['id'])
        if viol:
            rdir = os.path.join(VERIF, 'replay', prop)
            os.makedirs(rdir, exist_ok=True)
            for n, (h, r, v, k) in enumerate(viol):
                rp = os.path.join(rdir, re.sub(r'[^\w.-]+', '_', v['entry'] + '-' + v['id'])[:120] + '.json')
                json.dump({'property': prop, 'harness': os.path.relpath(h.path, VERIF), 'entry': v['entry'], 'assertion': v['id'], 'kind': v['kind'], 'message': v['msg'],
                           'stack': v['stack'], 'inputs': v['model'], 'native': v['reproduced'],
                           'replay_cmd': 'python3 /verif/replay.py ' + rp}, open(rp, 'w'), indent=1)
                print('violated: %s: %s (%s) inputs %s; %s' % (v['entry'], v['id'], v['msg'], json.dumps(v['model'])[:600], v['reproduced'][1]))
                print('VIOLATION property=%s replay=%s' % (prop, rp))
            rc = 1
        else:
            # solver give-ups shrink what was explored (reported, and 'exhaustive' is then false); anything else, or
            # give-ups in a third of the entries, is no answer
            soft = [e for e in errs if re.match(r'[\w]+: check_\w+: (solver: |time limit)', e)]
            undecided = {e.split(': ')[1] for e in soft}
            n = sum(len(r['entries']) for r in results)
            if len(soft) < len(errs) or 3 * len(undecided) > n:
                rc = 2
        for e in errs:
            log(('no answer: ' if rc else 'NOT EXPLORED: ') + e)
        evidence(prop, tier, seed, hs, results, viol, knownhit, errs, time.time() - t0)
        st = {'paths': 0, 'q': 0, 't': 0.0}
        for r in results:
            for e, o in r['entries'].items():
                st['paths'] += o['paths']; st['q'] += o['solver']['queries']; st['t'] += o['solver']['time']
                if os.environ.get('VERIF_V') or keep:
                    log('  %-40s paths=%d infeas=%d forks=%d merges=%d instr=%d q=%d st=%.1f wall=%.1f val=%d %s' % (e, o['paths'], o['infeasible'], o['forks'], o['merges'], o['instructions'], o['solver']['queries'], o['solver']['time'], o['wall'], o.get('validated', 0), 'VIOL ' + ','.join(v['id'] for v in o['violations']) if o['violations'] else ''))
        log('[%s %s] rc=%d entries=%d paths=%d queries=%d solver=%.1fs wall=%.1fs' % (prop, tier, rc, sum(len(r['entries']) for r in results), st['paths'], st['q'], st['t'], time.time() - t0))
    except BuildError as x:
        log('no answer: ' + str(x))
        rc = 2
    finally:
        if keep:
            log('work in ' + work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    return rc


def evidence(prop, tier, seed, hs, results, viol, knownhit, errs, wall):
    ents = [(h, r, e, o) for h, r in zip(hs, results) for e, o in r['entries'].items()]
    tot = lambda f: sum(f(o) for _, _, _, o in ents)
    samples = []
    for h, r, e, o in ents:
        for t in o['traces'][:1]:
            m = dict(list(t['model'].items())[:40])
            samples.append({'entry': e, 'path_inputs': m, 'observed_symbolically_and_natively': dict((a, b) for a, b in t['obs'][:20])})
    ids = {}
    for h, r, e, o in ents:
        for i, n in o['reached'].items():
            ids[e + ':' + i] = n
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot(lambda o: o['paths'] + o['infeasible'] + o['merges']),
            'transitions': tot(lambda o: o['instructions']),
            'traces_validated_against_impl': tot(lambda o: o.get('validated', 0)),
            'samples': samples[:12],
            'exhaustive': not errs,
            'explanation': 'states = symbolic path states completed, pruned or merged; transitions = IR instructions executed symbolically; every assertion below was decided by the solver for all values of the symbolic inputs within the bounds.',
            'method': 'symbolic execution of LLVM IR compiled from the current tree; bit-vector/floating-point SMT (z3, cvc5, SAT portfolio)',
            'functions_encoded': sorted({f for _, _, _, o in ents for f in o['functions']}),
            'sources': sorted({s for r in results for s in r.get('srcs', [])}),
            'bounds': [b for h in hs for b in h.bounds],
            'outside_bounds': [b for h in hs for b in h.outside],
            'assertions': ids,
            'queries': tot(lambda o: o['solver']['queries']),
            'queries_sat': tot(lambda o: o['solver']['sat']), 'queries_unsat': tot(lambda o: o['solver']['unsat']), 'queries_unknown': tot(lambda o: o['solver']['unknown']),
            'solver_time_s': round(tot(lambda o: o['solver']['time']), 3),
            'completed_paths': tot(lambda o: o['paths']), 'infeasible_paths': tot(lambda o: o['infeasible']), 'forks': tot(lambda o: o['forks']), 'merges': tot(lambda o: o['merges']),
            'entries': {e: {'paths': o['paths'], 'queries': o['solver']['queries'], 'solver_time_s': round(o['solver']['time'], 3), 'wall_s': round(o['wall'], 2), 'instructions': o['instructions']} for _, _, e, o in ents},
            'no_answer': errs, 'known_findings': [v['id'] for _, _, v, _ in knownhit],
        },
        'assumptions': sorted({a for h in hs for a in h.assume} | {
            'clang -O1 IR of the sources has the semantics of the g++ -O0 build the project ships (sampled paths are replayed natively and compared)',
            'libstdc++/libc functions outside headers are modelled by rt/rt.cpp and engine built-ins',
            'allocation does not fail; single thread; C locale'}),
        'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
