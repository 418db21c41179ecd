"""Build and bookkeeping machinery shared by all checks."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(VERIF, 'src')
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
NCPU = os.cpu_count() or 4
T0 = time.time()

class CompileError(Exception):
    def __init__(self, what, log): super().__init__(what); self.what = what; self.log = log

def _files(*roots):
    for r in roots:
        if os.path.isfile(r): yield r
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs): yield os.path.join(d, f)
_tree = None
def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for f in _files(REPO + '/include', REPO + '/src', REPO + '/CMakeLists.txt', REPO + '/cmake', VERIF + '/cmake', SRC + '/winshim', SRC + '/vgshim'):
            h.update(f.encode()); h.update(open(f, 'rb').read())
        _tree = h.hexdigest()
    return _tree

class Cfg:
    """One build configuration of the library and of the programs that use it."""
    def __init__(self, impl='fcontext', std='17', opt='-O2', cxx='g++', defs=(), flags=(), asserts=False, shared=False, link=()):
        self.impl, self.std, self.opt, self.cxx, self.defs, self.flags, self.asserts, self.shared, self.link = impl, std, opt, cxx, tuple(defs), tuple(flags), asserts, shared, tuple(link)
    def name(self):
        n = '%s/c++%s/%s/%s' % (self.impl, self.std, self.cxx, self.opt)
        if self.asserts: n += '/asserts'
        if self.shared: n += '/shared'
        for d in self.defs: n += '/' + d
        for f in self.flags: n += '/' + f
        return n
    def cflags(self):
        f = ['-std=c++' + self.std, self.opt, '-g', '-w', '-fPIC'] + list(self.flags) + ['-D' + d for d in self.defs]
        if not self.asserts: f.append('-DNDEBUG')
        if self.impl == 'segmented': f += ['-fsplit-stack', '-DBOOST_USE_SEGMENTED_STACKS']
        if self.impl == 'winfib': f += ['-I', os.path.join(SRC, 'winshim')]
        if self.impl == 'shstk': f += ['-fcf-protection=full']
        return f
    def use_defs(self):  # what the library's own build system hands to its users
        d = []
        if self.impl in ('ucontext', 'segmented'): d.append('-DBOOST_USE_UCONTEXT')
        if self.impl == 'winfib': d.append('-DBOOST_USE_WINFIB')
        if self.impl == 'shstk': d.append('-DSHADOW_STACK_SYSCALL=1')
        d.append('-DBOOST_CONTEXT_DYN_LINK' if self.shared else '-DBOOST_CONTEXT_STATIC_LINK')
        d.append('-DBOOST_CONTEXT_NO_LIB')
        return d
    def ldflags(self):
        l = list(self.link)
        if self.impl == 'segmented': l += ['-fsplit-stack', '-static-libgcc']
        if self.impl == 'shstk': l += ['-Wl,--wrap=make_fcontext']
        return l

_locks = {}
_glock = threading.Lock()
def _lock(k):
    with _glock: return _locks.setdefault(k, threading.Lock())

def run(cmd, timeout=600, env=None, cwd=None, inp=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd, input=inp)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode('utf8', 'replace'), 'timeout'

def build_lib(cfg):
    """The library built by the repository's own CMakeLists.txt; returns the file to link."""
    k = hashlib.sha256(('lib' + tree_hash() + cfg.name()).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, 'lib-' + k)
    out = os.path.join(d, 'libboost_context.' + ('so' if cfg.shared else 'a'))
    with _lock(d):
        if os.path.exists(out): return out
        tmp = d + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        fl = ' '.join(cfg.cflags())
        cc = 'clang' if 'clang' in cfg.cxx else 'gcc'
        cmd = ['cmake', '-G', 'Ninja', '-S', os.path.join(VERIF, 'cmake'), '-B', tmp, '-DVREPO=' + REPO, '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_CXX_COMPILER=' + cfg.cxx, '-DCMAKE_ASM_COMPILER=' + cc,
               '-DCMAKE_CXX_FLAGS=' + fl, '-DCMAKE_ASM_FLAGS=' + ' '.join(['-D' + x for x in cfg.defs] + [x for x in cfg.flags if x.startswith('-m') or x.startswith('-fcf')]),
               '-DBUILD_SHARED_LIBS=' + ('ON' if cfg.shared else 'OFF'), '-DBOOST_CONTEXT_IMPLEMENTATION=' + ('fcontext' if cfg.impl == 'shstk' else cfg.impl if cfg.impl in ('fcontext', 'winfib') else 'ucontext')]
        rc, o, e = run(cmd)
        if rc == 0: rc, o, e = run(['ninja', '-C', tmp, 'boost_context'])
        if rc != 0:
            shutil.rmtree(tmp, ignore_errors=True)
            raise CompileError('library does not build in configuration ' + cfg.name(), o + e)
        found = None
        for f in _files(tmp):
            if re.search(r'libboost_context[^/]*\.(a|so)$', f) or (cfg.shared and re.search(r'libboost_context\.so[.0-9]*$', f)):
                if not os.path.islink(f): found = f
        if not found: raise CompileError('library not produced in configuration ' + cfg.name(), o)
        os.makedirs(d, exist_ok=True)
        if cfg.shared:
            for f in _files(tmp):
                if re.search(r'libboost_context\.so', os.path.basename(f)): shutil.copy2(f, os.path.join(d, os.path.basename(f)), follow_symlinks=True)
        if not os.path.exists(out): shutil.copy2(found, out)
        shutil.rmtree(tmp, ignore_errors=True)
        return out

def build_bin(cfg, sources, defs=(), extra=(), nolib=False, ldextra=(), compile_only=False, opt=None):
    """A harness (sources relative to /verif/src) linked with the library; returns its path."""
    if cfg.impl == 'winfib': sources = list(sources) + ['winshim.cpp', REPO + '/src/windows/stack_traits.cpp']
    if cfg.impl == 'shstk': sources = list(sources) + ['shstk.cpp']
    sources = [s if s.startswith('/') else os.path.join(SRC, s) for s in sources]
    h = hashlib.sha256(('bin' + tree_hash() + cfg.name() + repr((defs, extra, nolib, ldextra, compile_only, opt))).encode())
    for s in sources: h.update(s.encode()); h.update(open(s, 'rb').read())
    for f in sorted(os.listdir(SRC)):
        if f.endswith(('.h', '.hpp', '.inc')): h.update(open(os.path.join(SRC, f), 'rb').read())
    out = os.path.join(BUILD, 'bin-' + h.hexdigest()[:20])
    with _lock(out):
        if os.path.exists(out): return out
        lib = None if (nolib or compile_only) else build_lib(cfg)
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        fl = cfg.cflags()
        if opt: fl = [opt if x == cfg.opt else x for x in fl]
        cmd = [cfg.cxx] + fl + cfg.use_defs() + ['-I', REPO + '/include', '-I', SRC] + ['-D' + d for d in defs] + list(extra) + sources
        if compile_only: cmd += ['-c', '-o', tmp]
        elif any(x.endswith('/rt.cpp') for x in sources):   # instrumented code linked with our own runtime
            objs = []
            for i, x in enumerate(sources):
                o_ = tmp + '.%d.o' % i
                own = x.endswith('/rt.cpp')
                c1 = [cfg.cxx] + [f for f in fl if not (own and f.startswith('-fsanitize'))] + ([] if own else cfg.use_defs()) + ['-I', REPO + '/include', '-I', SRC] + ['-D' + d for d in defs] + list(extra) + [x, '-c', '-o', o_]
                rc, o, e = run(c1)
                if rc != 0: raise CompileError('program using the public interface does not compile in configuration %s (%s)' % (cfg.name(), ' '.join(defs)), o + e)
                objs.append(o_)
            cmd = [cfg.cxx, '-rdynamic', '-o', tmp] + objs + [lib] + cfg.ldflags() + list(ldextra) + ['-lpthread', '-ldl']
            rc, o, e = run(cmd)
            for o_ in objs: os.unlink(o_)
            if rc != 0: raise CompileError('program does not link in configuration %s (%s)' % (cfg.name(), ' '.join(defs)), o + e)
            os.rename(tmp, out)
            return out
        else:
            cmd += ['-o', tmp]
            if lib: cmd += [lib]
            if cfg.shared: cmd += ['-Wl,-rpath,' + os.path.dirname(lib)]
            cmd += cfg.ldflags() + list(ldextra) + ['-lpthread', '-ldl']
        rc, o, e = run(cmd)
        if rc != 0:
            raise CompileError('program using the public interface does not compile in configuration %s (%s)' % (cfg.name(), ' '.join(defs)), o + e)
        os.rename(tmp, out)
        return out

def pmap(f, items, workers=None):
    with cf.ThreadPoolExecutor(workers or NCPU) as ex: return list(ex.map(f, items))

class Result:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.cov = {}; self.samples = []; self.viol = []; self.configs = []; self.notes = []
        self.assumptions = []; self.exhaustive = True
        self.lock = threading.Lock()
    def add(self, **kw):
        with self.lock:
            for k, v in kw.items(): self.cov[k] = self.cov.get(k, 0) + v
    def sample(self, s, limit=12):
        with self.lock:
            if len(self.samples) < limit and s not in self.samples: self.samples.append(s)
    def violation(self, what, replay):
        with self.lock: self.viol.append((what, replay))

def known_findings():
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'): r.append(l)
    return r

def finish(res, level):
    os.makedirs(EVID, exist_ok=True)
    cov = dict(res.cov)
    cov['samples'] = res.samples
    cov['exhaustive'] = bool(res.exhaustive)
    if res.configs: cov['configurations'] = res.configs
    if res.notes: cov['notes'] = res.notes
    ev = dict(property=res.prop, tier=res.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov, assumptions=res.assumptions, wall_s=round(time.time() - T0, 2), violations=len(res.viol))
    tmp = os.path.join(EVID, res.prop + '.json.tmp%d' % os.getpid())
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(EVID, res.prop + '.json'))
    rc = 0
    if res.viol:
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        for i, (what, rep) in enumerate(res.viol[:5]):
            p = os.path.join(rd, '%s-%d.json' % (res.prop, i))
            json.dump(dict(property=res.prop, what=what, replay=rep), open(p, 'w'), indent=1)
            print('%s: %s' % (res.prop, what))
            print('VIOLATION property=%s replay=%s' % (res.prop, p))
        rc = 1
    print('%s %s: %s in %.1fs; %s' % (res.prop, res.tier, 'VIOLATED' if rc else 'held', time.time() - T0, json.dumps({k: v for k, v in res.cov.items() if isinstance(v, (int, float))})))
    return rc
