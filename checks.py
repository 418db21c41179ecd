"""What each property's check runs."""
import json, os, sys, time
import vlib
from vlib import Cfg, CompileError

CHECKS = {}   # id -> (function, evidence level, technique)
def check(pid, level, technique):
    def deco(f): CHECKS[pid] = (f, level, technique); return f
    return deco

# ---------------------------------------------------------------- jobs
class Job:
    """One harness binary run with some arguments. Serializable so that a violation can be replayed."""
    def __init__(self, src, cfg, defs=(), args=(), env=None, extra=(), ldextra=(), nolib=False, timeout=600, label='', opt=None, bad_stderr=None, prefix=()):
        self.src = [src] if isinstance(src, str) else list(src)
        self.cfg, self.defs, self.args, self.env, self.extra, self.ldextra, self.nolib, self.timeout, self.label, self.opt = cfg, list(defs), [str(a) for a in args], dict(env or {}), list(extra), list(ldextra), nolib, timeout, label, opt
        self.bad_stderr = bad_stderr; self.prefix = list(prefix)
    def build(self): return vlib.build_bin(self.cfg, self.src, self.defs, self.extra, self.nolib, self.ldextra, opt=self.opt)
    def ser(self, args=None):
        return dict(kind='job', src=self.src, cfg=vars(self.cfg), defs=self.defs, args=self.args if args is None else [str(a) for a in args], env=self.env, extra=self.extra, ldextra=self.ldextra, nolib=self.nolib, timeout=self.timeout, opt=self.opt, bad_stderr=self.bad_stderr, prefix=self.prefix)
    @staticmethod
    def deser(d):
        return Job(d['src'], Cfg(**d['cfg']), d['defs'], d['args'], d['env'], d['extra'], d['ldextra'], d['nolib'], d['timeout'], opt=d['opt'], bad_stderr=d.get('bad_stderr'), prefix=d.get('prefix') or ())
    def run(self, args=None):
        env = dict(os.environ); env.update(self.env)
        t = time.time()
        rc, o, e = vlib.run(self.prefix + [self.build()] + (self.args if args is None else [str(a) for a in args]), self.timeout, env, cwd='/')
        js = None
        if self.bad_stderr and rc == 0:
            for l in e.splitlines():
                if self.bad_stderr in l: return 71, None, o, l
        for l in reversed(o.splitlines()):
            if l.startswith('{'):
                try: js = json.loads(l); break
                except ValueError: pass
        if os.environ.get('VERIF_TRACE'): print('   %6.1fs rc=%s %s %s %s %s' % (time.time() - t, rc, self.cfg.name(), self.defs, ' '.join(self.args), {k: v for k, v in (js or {}).items() if isinstance(v, (int, float, bool))}), file=sys.stderr)
        return rc, js, o, e
    def name(self): return self.label or '%s %s [%s]' % (self.src[0], ' '.join(self.defs), self.cfg.name())

def replay(d):
    if d.get('kind') == 'job':
        d.pop('sig', None)
        j = Job.deser(d)
        rc, js, o, e = j.run()
        sys.stdout.write(o); sys.stderr.write(e[-4000:])
        return 0 if rc == 0 else 1
    if d.get('kind') == 'ports':
        rc, o, e = vlib.run([sys.executable, os.path.join(vlib.VERIF, 'ports.py')] + d['args'], 600)
        sys.stdout.write(o); sys.stderr.write(e[-4000:])
        return 0 if rc == 0 else 1
    print(json.dumps(d, indent=1))
    return 1

def _outcome(rc, js, o, e):
    """None if the run was fine, else a description of what went wrong."""
    if js and js.get('violation'):
        v = js['violation']
        return (v.get('message') or str(v)) + ('; history: ' + v['path'] if v.get('path') else '')
    if rc == 0 and js: return None
    if rc == -999: return 'the program did not terminate'
    tail = '\n'.join((e or o).strip().splitlines()[-25:])
    return 'the program ended with status %s%s' % (rc, ('\n' + tail) if tail else '')

def judge(res, job, rc, js, o, e):
    """Turns the outcome of a run into a (confirmed) violation or adds its coverage."""
    bad = _outcome(rc, js, o, e)
    if js and not bad: return js
    if not bad: return js
    # a violation has to show again: its own history alone, or else the whole job
    args = None
    v = (js or {}).get('violation') or {}
    if v.get('replay'): args = v['replay']
    elif v.get('path') and 'pump' not in v: args = _engine_a_replay(job.args, v['path'])
    if args:
        rc2, js2, o2, e2 = job.run(args)
        if _outcome(rc2, js2, o2, e2):
            res.violation('%s: %s%s' % (job.name(), bad, _errtail(e)), job.ser(args)); return None
    rc3, js3, o3, e3 = job.run()
    bad3 = _outcome(rc3, js3, o3, e3)
    if bad3:
        res.violation('%s: %s%s' % (job.name(), bad, _errtail(e)), job.ser()); return None
    with res.lock: res.notes.append('unconfirmed (did not show again): %s: %s' % (job.name(), bad))
    return js3
def _errtail(e):
    keep = [l for l in (e or '').splitlines() if 'WARNING: ASan' not in l and 'HINT' not in l]
    return ('\n' + '\n'.join(keep[:30])) if keep else ''
def _engine_a_replay(args, path):
    keep = []
    for i in range(0, len(args) - 1, 2):
        if args[i] in ('-N', '-T', '-F', '--deep', '--ops', '--kinds', '--hist'): keep += args[i:i + 2]
    return keep + ['--mode', 'replay', '--path', path]

def run_jobs(res, jobs, workers=None, parallel=False):
    """Builds all jobs in parallel, runs them one after another (each uses all cores) or in parallel."""
    uniq = {}
    for j in jobs: uniq.setdefault((tuple(j.src), j.cfg.name(), tuple(j.defs), tuple(j.extra), tuple(j.ldextra), j.nolib, j.opt), j)
    errs = {}
    def b(j):
        try: j.build()
        except CompileError as e:
            try: j.build()   # not reproducible: an environment problem
            except CompileError as e2: errs[id(j)] = e2
    vlib.pmap(b, uniq.values(), workers)
    for e in errs.values(): res.violation('%s\n%s' % (e.what, '\n'.join([l for l in e.log.splitlines() if 'error' in l][:8])), dict(kind='compile', what=e.what))
    if errs: jobs = [j for j in jobs if uniq[(tuple(j.src), j.cfg.name(), tuple(j.defs), tuple(j.extra), tuple(j.ldextra), j.nolib, j.opt)] not in [x for x in uniq.values() if id(x) in errs]]
    out = []
    left = [len(jobs)]
    total = 720 if res.tier == 'thorough' else 420   # seconds for the whole check
    def one(j):
        if len(res.viol) >= 3: return (j, None)
        args = j.args
        if '--budget' in args:
            i = args.index('--budget')
            share = max(8.0, (total - (time.time() - vlib.T0)) / max(1, left[0]) * 1.5)
            j.args = args[:i + 1] + ['%.0f' % min(float(args[i + 1]), share)] + args[i + 2:]
        r = j.run()
        left[0] -= 1
        return (j, judge(res, j, *r))
    out = vlib.pmap(one, jobs, workers) if parallel else [one(j) for j in jobs]
    for j, js in out:
        n = j.cfg.name()
        if n not in res.configs: res.configs.append(n)
    return out

# ---------------------------------------------------------------- engine A: model of contexts, executed in lockstep
IMPLS = ('fcontext', 'ucontext')
def ea(cfg, api, alloc, args, env=None, **kw):
    return Job('engine_a.cpp', cfg, ['API=%d' % api, 'ALLOC=%d' % alloc], args, env, **kw)
def four(impls=IMPLS, apis=(0, 1), **kw):
    return [(Cfg(i, **kw), a) for i in impls for a in apis]
# the paths of other systems that differ in how the entry function gets its argument and how the stack is described
MACOS = ['BOOST_PREDEF_OS_MACOS_H', 'BOOST_OS_MACOS=1']; FREEBSD = ['BOOST_PREDEF_OS_BSD_FREE_H', 'BOOST_OS_BSD_FREE=1']
def lto(impl, cxx, opt='-O2', std='17', **kw):
    return Cfg(impl, std, opt, cxx, flags=['-flto'], link=['-flto', opt] + (['-fuse-ld=lld'] if 'clang' in cxx else []), **kw)
def crowd(cfg, api, n): return Job('crowd.cpp', cfg, ['API=%d' % api], [n], timeout=500)
def where(cfg, api, *d): return Job('where.cpp', cfg, ['API=%d' % api] + list(d), [], timeout=500)
def run_ea(res, jobs, **kw):
    for j, js in run_jobs(res, jobs, **kw):
        if not js: continue
        res.add(states=max(js['states'], 0), transitions=js['done'], traces_validated_against_impl=js['runs'], operations_executed=js['ops'])
        if js['states'] >= 2000000:
            res.exhaustive = False
            with res.lock: res.notes.append('state limit reached in %s %s' % (j.name(), ' '.join(j.args)))
        if js.get('capped'):
            res.exhaustive = False
            with res.lock: res.notes.append('time limit reached in %s %s: %d of %d transitions executed' % (j.name(), ' '.join(j.args), js['done'], js['transitions']))
        for s in js.get('samples', [])[-1:]: res.sample('%s: %s' % (j.name(), s))
def A(s): return s.split()
EA_ASSUME = ['single hand-over at a time: contexts are explored sequentially except where threads are named',
             'values are from small alphabets; contexts, frames and depth are bounded as listed in DESIGN.md']

@check('C01', 'model_checking', 'explicit-state exploration of all hand-over histories, every transition executed on the real library in lockstep with the model')
def c01(res, tier):
    jobs = []
    q = tier == 'quick'
    for cfg, api in four():
        jobs.append(ea(cfg, api, 0, A('-N 6 --ops NEW,RES,RET --hist 1 --budget 40') if q else A('-N 6 --ops NEW,RES,RET --hist 2 --budget 250')))
        jobs.append(ea(cfg, api, 0, A('-N 4 --ops NEW,RES,RET,DEL,HOLD --hist 2 --depth 10 --budget 40') if q else A('-N 4 --ops NEW,RES,RET,DEL,HOLD --hist 2 --budget 250')))
        jobs.append(ea(cfg, api, 0, A('-N 3 -F 2 --ops NEW,RES,RET,CALL,RWITH --kinds p --hist 2 --depth 10 --budget 40') if q else A('-N 3 -F 3 --ops NEW,RES,RET,CALL,RWITH,DEL --kinds pt --hist 1 --depth 12 --budget 250')))
        jobs.append(ea(cfg, api, 0, A('--mode pump -N 2 -F 2 --ops NEW,RES,RET,DEL --pump 70000 --pumplen %d --pumppre %d --budget %d' % ((3, 1, 40) if q else (4, 2, 90)))))  # counters of 16 bits wrap
        jobs.append(ea(cfg, api, 0, A('--mode pump -N 3 --ops NEW,RES,RET --pump 400 --pumplen 6 --pumppre 4 --budget 30') if q else A('--mode pump -N 4 --ops NEW,RES,RET,DEL --pump 3000 --pumplen 6 --pumppre 4 --budget 250')))
        jobs.append(ea(cfg, api, 0, A('--mode dfs -N 3 --len 10 --ops NEW,RES,RET,DEL --budget 40') if q else A('--mode dfs -N 4 --len 10 --ops NEW,RES,RET,DEL --budget 200')))
    run_ea(res, jobs)
    run_enum(res, [crowd(cfg, api, 600 if q else 66000) for cfg, api in four()], 'many_contexts')
    res.assumptions += EA_ASSUME

@check('C03', 'model_checking', 'explicit-state exploration of all resume-with-function histories, every transition executed on the real library in lockstep with the model')
def c03(res, tier):
    jobs = []
    q = tier == 'quick'
    for cfg, api in four():
        jobs.append(ea(cfg, api, 0, A('-N 2 -F 2 --hist 2 --rwforms 4 --ops NEW,RES,RET,RWITH,CALL,THROW,HOLD --kinds pt --budget 60')))
        jobs.append(ea(cfg, api, 0, A('-N 3 -F 2 --hist 1 --rwforms 2 --depth 8 --ops NEW,RES,RET,DEL,RWITH --budget 60') if q else A('-N 3 -F 2 --hist 2 --rwforms 4 --ops NEW,RES,RET,DEL,RWITH --budget 120')))
        jobs.append(ea(cfg, api, 0, A('-N 2 -F 4 --hist 1 --depth 9 --ops NEW,RES,RET,DEL,RWITH,CALL,THROW --kinds tr --budget 60') if q else A('-N 2 -F 5 --hist 1 --depth 12 --ops NEW,RES,RET,DEL,RWITH,CALL,THROW,HOLD --kinds tr --budget 150')))
        jobs.append(ea(cfg, api, 0, A('--mode dfs -N 2 -F 2 --len %d --rwforms 4 --ops NEW,RES,RET,RWITH,CALL,THROW,DEL --kinds t --budget %d' % ((7, 40) if q else (8, 120)))))
        jobs.append(ea(cfg, api, 0, A('--mode pump -N 2 -F 2 --ops NEW,RES,RET,RWITH,CALL,THROW --kinds t --pump 70000 --pumplen %d --pumppre %d --budget %d' % ((3, 1, 40) if q else (4, 2, 90)))))  # counters of 16 bits wrap
        jobs.append(ea(cfg, api, 0, A('--mode pump -N 2 -F 3 --ops NEW,RES,RET,RWITH --rwforms 2 --pump 300 --pumplen 5 --pumppre 3 --budget 60') if q else A('--mode pump -N 2 -F 3 --ops NEW,RES,RET,RWITH,CALL,THROW,DEL --kinds t --rwforms 4 --pump 1000 --pumplen 6 --pumppre 4 --budget 100')))
    run_ea(res, jobs)
    res.assumptions += EA_ASSUME + ['functions given to resume_with are copyable (both implementations copy a named or temporary function)']

@check('C04', 'model_checking', 'explicit-state exploration of all destruction points, destroyers and nestings, executed on the real library in lockstep with the model')
def c04(res, tier):
    jobs = []
    q = tier == 'quick'
    for cfg, api in four():
        jobs.append(ea(cfg, api, 0, A('-N 2 -F 3 --delforms 3 --depth 8 --hist 1 --ops NEW,RES,RET,DEL,HOLD,CALL,RWITH,THROW --kinds ptrd --budget 60') if q else A('-N 2 -F 4 --delforms 3 --depth 11 --ops NEW,RES,RET,DEL,HOLD,CALL,RWITH,THROW --kinds ptrd --budget 180')))
        jobs.append(ea(cfg, api, 0, A('-N 4 -F 2 --hist 1 --depth 10 --delforms 1 --ops NEW,RES,DEL,HOLD --budget 60') if q else A('-N 5 -F 2 --hist 1 --depth 13 --ops NEW,RES,DEL,HOLD --budget 120')))
        jobs.append(ea(cfg, api, 0, A('-N 3 -F 3 --delforms 2 --depth 8 --ops NEW,RES,DEL,HOLD,CALL,RWITH --kinds rd --budget 60') if q else A('-N 3 -F 3 --delforms 3 --depth 10 --ops NEW,RES,DEL,HOLD,CALL,RWITH --kinds rtd --budget 180')))
        jobs.append(ea(cfg, api, 0, A('--mode dfs -N 2 -F 2 --len %d --newforms 3 --delforms 3 --ops NEW,RES,RET,DEL,RWITH,CALL --kinds d --budget %d' % ((6, 40) if q else (7, 120)))))
        jobs.append(ea(cfg, api, 0, A('--mode pump -N 2 -F 2 --delforms 3 --ops NEW,RES,DEL,CALL,RWITH,HOLD --kinds d --pump 70000 --pumplen %d --pumppre %d --budget %d' % ((3, 1, 40) if q else (4, 2, 90)))))  # counters of 16 bits wrap
        jobs.append(ea(cfg, api, 0, A('--mode pump -N 2 -F 2 --ops NEW,RES,DEL,CALL,RWITH --kinds d --delforms 3 --pump 300 --pumplen 4 --pumppre 2 --budget 60') if q else A('--mode pump -N 3 -F 3 --ops NEW,RES,DEL,CALL,RWITH,HOLD --kinds rd --delforms 3 --pump 1000 --pumplen 5 --pumppre 3 --budget 100')))
    run_ea(res, jobs)
    res.assumptions += EA_ASSUME

@check('C05', 'model_checking', 'explicit-state exploration of creation/finish/destruction histories with counted, poisoned allocators on the real library')
def c05(res, tier):
    jobs = []
    q = tier == 'quick'
    for cfg, api in four():
        for al in (0, 1, 2, 3):
            if q and al and (al + api + (cfg.impl == 'ucontext')) % 2: continue
            d = dict(q='11' if al == 0 else '9', t='13' if al == 0 else '11')['q' if q else 't']
            jobs.append(ea(cfg, api, al, A('-N 3 -F 2 --newforms 3 --delforms 2 --depth %s --hist 2 --ops NEW,RES,RET,DEL,HOLD --budget %d' % (d, 40 if q else 70))))
        jobs.append(ea(cfg, api, 0, A('-N 2 -F 3 --newforms 3 --delforms 3 --depth 8 --hist 1 --ops NEW,RES,RET,DEL,CALL,RWITH,HOLD --kinds td --budget 40') if q else A('-N 2 -F 3 --newforms 3 --delforms 3 --depth 9 --ops NEW,RES,RET,DEL,CALL,RWITH,HOLD --kinds td --budget 100')))
        jobs.append(ea(cfg, api, 0, A('--mode pump -N 2 -F 2 --newforms 3 --delforms 2 --ops NEW,RES,RET,DEL,RWITH --pump 70000 --pumplen %d --pumppre %d --budget %d' % ((3, 1, 40) if q else (4, 2, 90)))))  # counters of 16 bits wrap
        jobs.append(ea(cfg, api, 0, A('--mode pump -N 2 -F 2 --newforms 3 --delforms 2 --ops NEW,RES,RET,DEL,RWITH --pump 500 --pumplen 4 --pumppre 2 --budget 40') if q else A('--mode pump -N 3 -F 2 --newforms 3 --delforms 3 --ops NEW,RES,RET,DEL,RWITH --pump 2000 --pumplen 5 --pumppre 3 --budget 100')))
        jobs.append(ea(cfg, api, 0, A('--mode dfs -N 2 -F 2 --len %d --newforms 3 --delforms 3 --ops NEW,RES,RET,DEL,RWITH,CALL --kinds t --budget %d' % ((6, 40) if q else (7, 120)))))
        for al in (1, 2, 3): jobs.append(ea(cfg, api, al, A('--mode pump -N 2 -F 2 --newforms 3 --delforms 2 --ops NEW,RES,RET,DEL --pump 400 --pumplen 3 --pumppre 1 --budget 30') if q else A('--mode pump -N 2 -F 2 --newforms 3 --delforms 3 --ops NEW,RES,RET,DEL,RWITH --pump 1000 --pumplen 4 --pumppre 2 --budget 100')))
        if not q: jobs.append(ea(cfg, api, 2, A('--mode pump -N 1 --newforms 3 --ops NEW,RES,RET,DEL --pump 70000 --pumplen 3 --pumppre 1 --budget 100')))
    run_ea(res, jobs)
    run_enum(res, [crowd(cfg, api, 300 if q else 5000) for cfg, api in four(opt='-O0', std='11', cxx='clang++')], 'many_contexts')
    res.assumptions += EA_ASSUME

@check('C08', 'model_checking', 'explicit-state exploration of exception/handler/switch histories on the real library, plus exhaustive enumeration of exceptions leaving entry functions')
def c08(res, tier):
    jobs = []
    q = tier == 'quick'
    for cfg, api in four():
        jobs.append(ea(cfg, api, 0, A('-N 2 -F 4 --depth 8 --hist 1 --ops NEW,RES,RET,CALL,THROW,RWITH,DEL --kinds tr --budget 60') if q else A('-N 2 -F 5 --hist 1 --depth 11 --ops NEW,RES,RET,CALL,THROW,RWITH,DEL --kinds ptr --budget 150')))
        jobs.append(ea(cfg, api, 0, A('-N 2 -F 3 --hist 1 --depth 9 --ops NEW,RES,RET,CALL,THROW,RWITH,HOLD --kinds td --budget 60') if q else A('-N 3 -F 3 --hist 2 --depth 10 --ops NEW,RES,RET,CALL,THROW,RWITH,HOLD,DEL --kinds td --budget 150')))
        jobs.append(ea(cfg, api, 0, A('--mode pump -N 2 -F 2 --ops NEW,RES,RET,CALL,THROW,RWITH,DEL --kinds t --pump 70000 --pumplen %d --pumppre %d --budget %d' % ((3, 1, 40) if q else (4, 2, 90)))))  # counters of 16 bits wrap
        jobs.append(ea(cfg, api, 0, A('--mode pump -N 2 -F 3 --ops NEW,RES,RET,CALL,THROW,RWITH,DEL --kinds t --pump 300 --pumplen 4 --pumppre 2 --budget 30') if q else A('--mode pump -N 2 -F 3 --ops NEW,RES,RET,CALL,THROW,RWITH,DEL --kinds tr --pump 2000 --pumplen 6 --pumppre 3 --budget 100')))
        jobs.append(ea(cfg, api, 0, A('--mode dfs -N 2 -F 2 --len %d --ops NEW,RES,RET,CALL,THROW,DEL --kinds tr --budget %d' % ((9, 40) if q else (10, 120)))))
    run_ea(res, jobs)
    esc = []
    for std, opt, cxx in ([('17', '-O2', 'g++'), ('11', '-O0', 'g++')] if q else [(s, o, c) for s in ('11', '14', '17', '20') for o in ('-O0', '-O2') for c in ('g++', 'clang++')]):
        for cfg, api in four(std=std, opt=opt, cxx=cxx): esc.append(Job('escape.cpp', cfg, ['API=%d' % api]))
    run_enum(res, esc, 'escape_scenarios')
    res.assumptions += EA_ASSUME + ['a context that throws out of its entry function does not own the object denoting its resumer (its destruction during the search for a handler would unwind the resumer)']

def run_enum(res, jobs, key, parallel=True, states=False):
    """Harnesses that enumerate their own finite space and print evaluations / nontrivial / samples."""
    for j, js in run_jobs(res, jobs, parallel=parallel):
        if not js: continue
        kw = {key: js.get('evaluations', 0)}
        if js.get('nontrivial') not in (None, js.get('evaluations')): kw[key + '_distinct_nontrivial'] = js['nontrivial']
        for k, v in js.items():
            if isinstance(v, int) and not isinstance(v, bool) and k not in ('evaluations', 'nontrivial'): kw[k] = v
        res.add(**kw)
        if js.get('capped'): res.exhaustive = False
        for s in js.get('samples', [])[:2]: res.sample('%s: %s' % (j.name(), s), 24)

@check('C20', 'model_checking', 'explicit-state exploration of switch/growth/finish histories on the real library in a segmented-stack build')
def c20(res, tier):
    jobs = []
    q = tier == 'quick'
    for opt, cxx in ([('-O2', 'g++')] if q else [('-O2', 'g++'), ('-O0', 'g++')]):
        for api in (0, 1):
            c = Cfg('segmented', opt=opt, cxx=cxx)
            jobs.append(ea(c, api, 4, A('-N 3 -F 2 --hist 1 --mainlimit 224 --ops NEW,RES,RET,DEL,DEEP --deep 300 --depth 11 --budget 40') if q else A('-N 4 -F 2 --hist 1 --mainlimit 224 --ops NEW,RES,RET,DEL,DEEP --deep 600 --depth 13 --budget 100')))
            jobs.append(ea(c, api, 4, A('-N 2 -F 3 --hist 1 --ops NEW,RES,RET,DEL,CALL,RWITH,THROW,DEEP --kinds tg --deep 200 --depth 8 --budget 40') if q else A('-N 2 -F 3 --hist 1 --ops NEW,RES,RET,DEL,CALL,RWITH,THROW,DEEP,HOLD --kinds tgd --deep 200 --depth 9 --newforms 3 --budget 150')))
            jobs.append(ea(c, api, 4, A('-N 2 -F 3 --hist 1 --ops NEW,RES,RET,DEL,CALL,HOLD --kinds gd --newforms 3 --deep 100 --depth 8 --budget 40') if q else A('-N 3 -F 3 --hist 1 --ops NEW,RES,RET,DEL,CALL,HOLD --kinds gdr --newforms 3 --deep 100 --depth 9 --budget 150')))
            jobs.append(ea(c, api, 4, A('--mode pump -N 2 -F 2 --ops NEW,RES,RET,DEL,CALL,DEEP --kinds g --deep 60 --pump 200 --pumplen 4 --pumppre 2 --budget 30') if q else A('--mode pump -N 2 -F 2 --ops NEW,RES,RET,DEL,CALL,DEEP,RWITH --kinds g --deep 60 --pump 500 --pumplen 5 --pumppre 3 --budget 100')))
    run_ea(res, jobs)
    res.assumptions += EA_ASSUME + ['gcc split stacks on x86_64 (the only compiler here that links them)']

ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=1:detect_stack_use_after_return=1:exitcode=66:abort_on_error=0'}
ASAN_ENV0 = {'ASAN_OPTIONS': 'detect_leaks=1:detect_stack_use_after_return=0:exitcode=66:abort_on_error=0'}
ASAN_RES = {'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1:exitcode=66:symbolize=0:quarantine_size_mb=1:thread_local_quarantine_size_kb=64'}
TSAN_ENV = {'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:abort_on_error=0'}
NORET = 'requested __asan_handle_no_return'
@check('C22', 'model_checking', 'explicit-state exploration of context histories on the real library built with sanitizer support; every run is judged by the sanitizer and the model')
def c22(res, tier):
    q = tier == 'quick'
    jobs, enum = [], []
    asan = lambda cxx, opt='-O1', std='17': Cfg('ucontext', cxx=cxx, opt=opt, std=std, defs=['BOOST_USE_ASAN'], flags=['-fsanitize=address', '-fno-omit-frame-pointer'])
    tsan = lambda cxx, opt='-O1', std='17': Cfg('ucontext', cxx=cxx, opt=opt, std=std, defs=['BOOST_USE_TSAN'], flags=['-fsanitize=thread'])
    for cxx in ('g++', 'clang++'):
        if q and cxx == 'clang++': continue
        for api in (0, 1):
            c = asan(cxx)
            for env in ((ASAN_ENV, ASAN_ENV0) if not q or api == 0 else (ASAN_ENV,)):
                jobs.append(ea(c, api, 1, A('-N 2 -F 3 --hist 1 --ops NEW,RES,RET,DEL,CALL,RWITH,THROW,HOLD --kinds trd --newforms 3 --depth 7 --budget 50') if q else A('-N 2 -F 3 --hist 1 --ops NEW,RES,RET,DEL,CALL,RWITH,THROW,HOLD --kinds trd --newforms 3 --delforms 3 --rwforms 4 --depth 8 --budget 150'), env, bad_stderr=NORET))
            jobs.append(ea(c, api, 1, A('-N 3 --ops NEW,RES,RET,DEL --hist 1 --budget 50'), ASAN_ENV, bad_stderr=NORET))
            jobs.append(ea(c, api, 1, A('--mode pump -N 2 -F 2 --ops NEW,RES,RET,DEL,CALL,RWITH --kinds g --deep 20 --pump 100 --pumplen 4 --pumppre 2 --budget 50'), ASAN_ENV, bad_stderr=NORET))
            for env in (ASAN_ENV, ASAN_ENV0): enum.append(Job('san.cpp', c, ['API=%d' % api], ['clean'], env))
            enum.append(Job('san.cpp', c, ['API=%d' % api], ['errors'], ASAN_RES)); enum.append(Job('san.cpp', c, ['API=%d' % api], ['leak', 1500], ASAN_RES))
        c = tsan(cxx)
        jobs.append(ea(c, 0, 1, A('-N 2 -F 3 --hist 1 --ops NEW,RES,RET,DEL,CALL,RWITH,THROW,HOLD --kinds trd --newforms 3 --depth %d --budget 100' % (6 if q else 8)), TSAN_ENV))
        jobs.append(ea(c, 0, 1, A('-N 2 -T 2 -F 3 --hist 1 --ops NEW,RES,RET,DEL,SW,TEND,RWITH --newforms 2 --depth %d --budget 100' % (7 if q else 9)), TSAN_ENV))
        enum.append(Job('san.cpp', c, ['API=0'], ['clean'], TSAN_ENV)); enum.append(Job('san.cpp', c, ['API=0'], ['race'], TSAN_ENV)); enum.append(Job('san.cpp', c, ['API=0'], ['leak', 1500], TSAN_ENV))
    run_ea(res, jobs)
    run_enum(res, enum, 'sanitizer_scenarios')
    res.assumptions += EA_ASSUME + ['thread-sanitizer support exists for fibers only (call/cc has none, and none is documented)', 'resource accumulation is measured as growth of resident memory over 1500 cycles per pattern']

def cfgs16(q):
    C = Cfg
    L = [C('fcontext', '11', '-O0'), C('fcontext', '14', '-O1'), C('fcontext', '20', '-O3', asserts=True), C('fcontext', '17', '-O0', 'clang++'), C('fcontext', '11', '-O2', 'clang++', asserts=True),
         C('fcontext', '17', '-O2', defs=['BOOST_USE_TSX']), C('fcontext', '17', '-O2', defs=['BOOST_USE_VALGRIND']), C('fcontext', '17', '-O2', shared=True), C('fcontext', '17', '-O2', defs=['BOOST_CONTEXT_TLS_STACK_PROTECTOR'], flags=['-fstack-protector-all']), C('fcontext', '20', '-Os', flags=['-fcf-protection=full', '-fomit-frame-pointer']),
         C('ucontext', '11', '-O0', asserts=True), C('ucontext', '14', '-O2', 'clang++'), C('ucontext', '20', '-O3'), C('ucontext', '17', '-O0', 'clang++', defs=['BOOST_USE_VALGRIND']), C('ucontext', '17', '-O2', shared=True), C('segmented', '17', '-O1'),
         lto('ucontext', 'clang++'), lto('fcontext', 'g++', '-O3', '20'), C('ucontext', '14', '-O2', flags=['-fvisibility=hidden', '-fvisibility-inlines-hidden'], shared=True),
         C('ucontext', '17', '-O2', defs=MACOS), C('ucontext', '11', '-O1', 'clang++', defs=MACOS + FREEBSD)]
    if not q:
        for o in ('-O0', '-O3'): L += [C('ucontext', '17', o, 'clang++', defs=MACOS), C('ucontext', '20', o, defs=FREEBSD)]
        for i in IMPLS:
            for s in ('11', '14', '17', '20', '23'):
                for c in ('g++', 'clang++'):
                    for o in ('-O0', '-O2', '-O3'): L.append(C(i, s, o, c, asserts=(o == '-O0')))
        for i in IMPLS:
            for c in ('g++', 'clang++'):
                for s, o in (('11', '-O1'), ('14', '-O3'), ('20', '-O2')): L.append(lto(i, c, o, s))
        for s in ('11', '20'):
            for o in ('-O0', '-O2'): L.append(C('segmented', s, o))
        for c in ('g++', 'clang++'):
            for d in ('BOOST_USE_TSX', 'BOOST_USE_VALGRIND', 'BOOST_CONTEXT_TLS_STACK_PROTECTOR'): L.append(C('fcontext', '14', '-O2', c, defs=[d], asserts=True))
            L.append(C('ucontext', '20', '-O2', c, shared=True, flags=['-fstack-protector-strong'])); L.append(C('fcontext', '11', '-O2', c, shared=True, flags=['-flto'] if c == 'g++' else []))
    u = {}
    for c in L: u.setdefault(c.name(), c)
    return list(u.values())
@check('C16', 'model_checking', 'explicit-state exploration of the same histories in every build configuration, each executed in lockstep with one reference model')
def c16(res, tier):
    q = tier == 'quick'
    jobs, en = [], []
    for k, c in enumerate(cfgs16(q)):
        al = 4 if c.impl == 'segmented' else 0
        for api in (0, 1):
            if q and (k + api) % 2 and not (c.impl == 'segmented'): apis = False
            else: apis = True
            if apis or not q:
                jobs.append(ea(c, api, al, A('-N 2 -F 3 --hist 1 --depth %d --ops NEW,RES,RET,DEL,CALL,RWITH,THROW,HOLD --kinds ptrd --newforms 3 --rwforms 4 --delforms 3 --budget 40' % (5 if q else 6))))
                jobs.append(ea(c, api, al, A('-N 3 --hist 1 --ops NEW,RES,RET,DEL,HOLD --budget 30')))
        en.append(Job('api_all.cpp', c, ['FIRST=%d' % (k % 8)]))
        if c.defs[:1] == tuple(MACOS[:1]): en += [where(c, 0), where(c, 1)]
        if not q and k < 16: en += [Job('api_all.cpp', c, ['FIRST=%d' % i]) for i in range(8) if i != k % 8]
    run_ea(res, jobs)
    run_enum(res, en, 'api_uses')
    res.assumptions += EA_ASSUME + ['configurations: those listed in the evidence (x86_64 Linux, gcc 13 and clang 18)']

# ---------------------------------------------------------------- raw primitives and machine state
RAWX = ['-fno-stack-protector', '-fno-omit-frame-pointer']
def run_graph(res, jobs, parallel=False):
    for j, js in run_jobs(res, jobs, parallel=parallel):
        if not js: continue
        res.add(states=js.get('states', 0), transitions=js.get('transitions', 0), traces_validated_against_impl=js.get('evaluations', 0))
        if js.get('capped'):
            res.exhaustive = False
            with res.lock: res.notes.append('time limit reached in %s %s: %d traces executed' % (j.name(), ' '.join(j.args), js['evaluations']))
        for s in js.get('samples', [])[-1:]: res.sample('%s: %s' % (j.name(), s), 16)
RAW_ASSUME = ['x86_64 System V (the processor of this machine); other ports: C19', 'four machine-state profiles with pairwise different values, plus every single value of each control field and register bit']

@check('C06', 'model_checking', 'explicit-state exploration of switch histories with distinct machine states, every trace executed on the real library; exhaustive enumeration of control-register values')
def c06(res, tier):
    q = tier == 'quick'
    jobs, en = [], []
    for cfg, api in four():
        jobs.append(Job('raw.cpp', cfg, ['API=%d' % api], A('graph -N 3 -P 2 -F 1 --budget 60') if q else A('graph -N 3 -P 3 -F 1 --budget 90'), extra=RAWX))
        if not q: jobs.append(Job('raw.cpp', cfg, ['API=%d' % api], A('graph -N 2 -P 4 -F 3 --budget 60'), extra=RAWX)); jobs.append(Job('raw.cpp', cfg, ['API=%d' % api], A('graph -N 4 -P 1 -F 1 --budget 60'), extra=RAWX))
        en.append(Job('raw.cpp', cfg, ['API=%d' % api], ['enum'], extra=RAWX))
    for cfg in [Cfg('fcontext')] + [Cfg('fcontext', cxx='clang++', opt='-O0'), Cfg('fcontext', defs=['BOOST_USE_TSX'])]:
        jobs.append(Job('raw.cpp', cfg, [], A('graph -N 3 -P 3 -F 1 --budget 60') if q else A('graph -N 3 -P 3 -F 2 --budget 100'), extra=RAWX))
        en.append(Job('raw.cpp', cfg, [], ['enum'], extra=RAWX))
    run_graph(res, jobs)
    run_enum(res, en, 'machine_states')
    res.assumptions += RAW_ASSUME + ['with BOOST_USE_TSX the floating-point settings are documented not to be kept and are not compared']

@check('C07', 'model_checking', 'explicit-state exploration of make/jump/ontop histories, every trace executed on the real primitives in lockstep with the model')
def c07(res, tier):
    q = tier == 'quick'
    jobs, en = [], []
    for cfg in [Cfg('fcontext'), Cfg('fcontext', cxx='clang++', opt='-O0'), Cfg('fcontext', opt='-O3', shared=True), Cfg('fcontext', opt='-O1', flags=['-fcf-protection=full'])]:
        if cfg.opt in ('-O2', '-O0') or not q:
            jobs.append(Job('raw.cpp', cfg, [], A('graph -N 3 -P 2 -F 2 --budget 60') if q else A('graph -N 3 -P 2 -F 3 --budget 150'), extra=RAWX))
            if not q: jobs.append(Job('raw.cpp', cfg, [], A('graph -N 5 -P 1 -F 1 --budget 100'), extra=RAWX))
        jobs.append(Job('raw.cpp', cfg, [], A('graph -N 4 -P 1 -F 1 --budget 60'), extra=RAWX))
        jobs.append(Job('raw.cpp', cfg, [], A('dfs -N 3 -P 1 -F 2 --len %d --budget 60' % (8 if q else 10)), extra=RAWX))
        en.append(Job('raw.cpp', cfg, [], ['enum'], extra=RAWX))
    run_graph(res, jobs)
    run_enum(res, en, 'stack_tops_and_values')
    res.assumptions += RAW_ASSUME + ['running a function on top of a raw context that was never entered is not part of the contract']

@check('C18', 'model_checking', 'explicit-state exploration of make/jump/ontop histories with a distinct stack guard per context, every trace executed on the real primitives')
def c18(res, tier):
    q = tier == 'quick'
    jobs, en, ej = [], [], []
    for cfg in [Cfg('fcontext', defs=['BOOST_CONTEXT_TLS_STACK_PROTECTOR'], flags=['-fstack-protector-all'], opt=o, cxx=c, shared=s) for o, c, s in (('-O2', 'g++', False), ('-O0', 'clang++', True))] + [Cfg('fcontext', defs=['BOOST_CONTEXT_TLS_STACK_PROTECTOR', 'BOOST_USE_TSX'], flags=['-fstack-protector-all'])]:
        jobs.append(Job('raw.cpp', cfg, [], A('graph -N 3 -P 3 -F 1 --budget 60') if q else A('graph -N 3 -P 3 -F 2 --budget 150'), extra=RAWX))
        jobs.append(Job('raw.cpp', cfg, [], A('graph -N 4 -P 1 -F 1 --budget 60') if q else A('graph -N 5 -P 1 -F 1 --budget 60'), extra=RAWX))
        en.append(Job('raw.cpp', cfg, [], ['enum'], extra=RAWX))
        if 'BOOST_USE_TSX' in cfg.defs: continue
        for api in (0, 1):
            ej.append(ea(cfg, api, 1, A('-N 2 -F 3 --hist 1 --depth %d --ops NEW,RES,RET,DEL,CALL,RWITH,THROW,HOLD --kinds ptrd --newforms 3 --budget 60' % (6 if q else 8))))
    run_graph(res, jobs)
    run_enum(res, en, 'stack_tops_and_values')
    run_ea(res, ej)
    res.assumptions += RAW_ASSUME + ['the guard of x86_64 Linux lives at %fs:0x28']

@check('C02', 'model_checking', 'explicit-state exploration of all construct/move/assign/swap/resume/destroy sequences over object slots, every transition executed on the real classes and compared with a model')
def c02(res, tier):
    q = tier == 'quick'
    jobs = []
    for impl in IMPLS:
        for std, opt, cxx in ([('17', '-O2', 'g++'), ('11', '-O0', 'clang++')] if q else [(s, o, c) for s in ('11', '20') for o in ('-O0', '-O3') for c in ('g++', 'clang++')] + [('17', '-O2', 'g++')]):
            for api in (0, 1):
                c = Cfg(impl, std, opt, cxx)
                jobs.append(Job('handles.cpp', c, ['API=%d' % api], A('graph -K %d --len 6 --budget 120' % (3 if q and opt != '-O2' else 4))))
                if opt == '-O2': jobs.append(Job('handles.cpp', c, ['API=%d' % api], A('dfs -K 2 --len %d --budget 60' % (5 if q and impl == 'ucontext' else 6))))
    run_graph(res, jobs)
    res.assumptions += ['a finished context\'s object is compared only by its boolean test (its print-out and order relative to empty objects are left open)', 'values printed for live contexts only have to be distinct and unchanged by moves']

# ---------------------------------------------------------------- stack allocators
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in 'malloc free calloc posix_memalign aligned_alloc mmap mmap64 munmap mprotect sysconf getcontext'.split())]
def al(kind, args, cfg=None, **kw): return Job('alloc.cpp', cfg or Cfg('segmented' if kind == 4 else 'fcontext'), ['KIND=%d' % kind], A(args), ldextra=WRAP, **kw)
AL_ASSUME = ['the memory system is replaced by stand-ins (link-time) that record, surround with canaries, and fail on demand; page sizes other than 4096 are emulated by them']
MAPST = dict(defs=['BOOST_CONTEXT_USE_MAP_STACK'])
@check('C10', 'model_checking', 'exhaustive exploration of allocator/stack operation sequences on the real allocators against a model of live blocks; exhaustive enumeration of requested sizes')
def c10(res, tier):
    q = tier == 'quick'
    jobs, en = [], []
    cf = [Cfg('fcontext'), Cfg('fcontext', **MAPST)] + ([] if q else [Cfg('ucontext', '11', '-O0', 'clang++', asserts=True), Cfg('fcontext', '20', '-O3', defs=['BOOST_USE_VALGRIND'])])
    for c in cf:
        for k in (1, 2, 3):
            jobs.append(al(k, 'seq -K 2 -S 3 --len %d --budget 60' % (6 if q else 8), c))
            jobs.append(al(k, 'seq -K 3 -S 2 --len %d --budget 60' % (5 if q else 7), c))
            en.append(al(k, 'sizes --page 4096', c)); en.append(al(k, 'sizes --page 16384', c)); en.append(al(k, 'many', c))
        for nx, mx in ((1, 0), (2, 3)): jobs.append(al(3, 'seq -K 1 -S 4 --len %d --next %d --max %d --budget 60' % (7 if q else 10, nx, mx), c))
    jobs.append(al(4, 'seq -K 2 -S 3 --len %d --budget 60' % (5 if q else 7)))
    en.append(al(4, 'many'))
    for nx, mx in ((1, 0), (2, 3), (7, 5), (32, 0)): en.append(al(3, 'many --next %d --max %d' % (nx, mx)))
    run_graph(res, jobs)
    run_enum(res, en, 'requested_sizes')
    res.assumptions += AL_ASSUME

@check('C11', 'model_checking', 'exhaustive enumeration of requested sizes x page sizes x failing calls, and of operation sequences, on the real protected allocator; exhaustive overflow scenarios on contexts')
def c11(res, tier):
    q = tier == 'quick'
    jobs, en = [], []
    for c in ([Cfg('fcontext'), Cfg('fcontext', **MAPST)] if q else [Cfg('fcontext'), Cfg('fcontext', **MAPST), Cfg('ucontext', '11', '-O0', 'clang++', asserts=True), Cfg('fcontext', '20', '-O3')]):
        for p in (4096, 8192, 16384, 65536): en.append(al(2, 'sizes --page %d' % p, c))
        jobs.append(al(2, 'seq -K 2 -S 3 --len %d --fault 1 --budget 90' % (5 if q else 6), c))
        jobs.append(al(2, 'seq -K 1 -S 4 --len %d -z 1 -y 8192 --budget 90' % (7 if q else 9), c))
        jobs.append(al(2, 'seq -K 2 -S 2 --len %d --page 16384 -z 16385 -y 40000 --fault 1 --budget 90' % (5 if q else 6), c))
    for cfg, api in four():
        for o in (('-O0',) if q else ('-O0', '-O2')): en.append(Job('overflow.cpp', Cfg(cfg.impl, opt=o), ['API=%d' % api]))
    run_graph(res, jobs)
    run_enum(res, en, 'sizes_and_overflows')
    res.assumptions += AL_ASSUME + ['a stack overflow touches every page on its way down (frames smaller than a page)']

@check('C13', 'model_checking', 'exhaustive fault injection: every memory and system call made by every form of creation in every place fails, on the real library')
def c13(res, tier):
    q = tier == 'quick'
    jobs, en = [], []
    cfs = [(c, a) for c, a in four()] if q else [(Cfg(i, s, o, x, asserts=(o == '-O0')), a) for i in IMPLS for s in ('11', '14', '17', '20') for o, x in (('-O2', 'g++'), ('-O0', 'clang++')) for a in (0, 1)]
    for c, a in cfs:
        for k in (0, 1, 2, 3): en.append(Job('fault.cpp', c, ['API=%d' % a, 'ALLOC=%d' % k], ldextra=WRAP))
    if not q:
        for a in (0, 1):
            for k in (1, 2, 3): en.append(Job('fault.cpp', Cfg('fcontext', **MAPST), ['API=%d' % a, 'ALLOC=%d' % k], ldextra=WRAP))
    for k in (1, 2, 3):
        jobs.append(al(k, 'seq -K 2 -S 3 --len %d --fault 1 --budget 90' % (5 if q else 6)))
        jobs.append(al(k, 'seq -K 2 -S 3 --len %d --fault 1 --budget 90' % (5 if q else 6), Cfg('fcontext', **MAPST)))
        en.append(al(k, 'sizes --page 4096'))
    run_enum(res, en, 'creation_attempts')
    run_graph(res, jobs)
    res.assumptions += AL_ASSUME + ['the bookkeeping of the thread itself exists before calls fail (it is created in functions declared noexcept)', 'segmented stacks: the compiler\'s runtime library aborts when it cannot map a segment', 'the record that holds the function object is constructed in a noexcept constructor: copying the function object into a new context must not throw']

# ---------------------------------------------------------------- threads
CWRAP = ['-Wl,' + ','.join('--wrap=' + f for f in 'malloc free calloc posix_memalign aligned_alloc mmap munmap sysconf getrlimit getrlimit64 pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_once sched_yield __cxa_allocate_exception'.split())]
def conc(impl, api, args, cxx='g++', opt='-O1', **kw): return Job(['conc.cpp', 'rt.cpp'], Cfg(impl, opt=opt, cxx=cxx, flags=['-fsanitize=thread'], **kw), ['API=%d' % api], A(args), ldextra=CWRAP)
CONC_ASSUME = ['one thread runs at a time: weak-memory effects are covered by the data-race check (vector clocks that respect the memory order of every atomic operation), not by reordering', 'schedules are bounded by the stated number of preemptions']
TWRAP = ['-Wl,' + ','.join('--wrap=' + f for f in 'sysconf getrlimit getrlimit64 getpagesize'.split())]

@check('C12', 'model_checking', 'exhaustive exploration of all thread schedules up to a preemption bound of the real pooled allocator under a controlled scheduler with data-race, use-after-free and leak detection; exhaustive sequential histories')
def c12(res, tier):
    q = tier == 'quick'
    cj, jobs = [], []
    for impl in IMPLS:
        for api in (0, 1):
            main = impl == 'fcontext' and api == 0
            if q and not main:
                cj.append(conc(impl, api, 'pool -T 2 -L 2 --ops cykKr --bound 1 --budget 60')); continue
            b = 60 if q else 120
            cj.append(conc(impl, api, 'pool -T 2 -L 2 --bound 2 --budget %d' % b))
            cj.append(conc(impl, api, 'pool -T 2 -L 3 --ops cxy=kr --bound %d --budget %d' % (1 if q else 2, b)))
            cj.append(conc(impl, api, 'pool -T 2 -L 1 --bound %d --budget %d' % (3 if q else 5, b)))
            cj.append(conc(impl, api, 'pool -T 3 -L 1 --ops cmyAk --bound %d --budget %d' % (2 if q else 3, b)))
            cj.append(conc(impl, api, 'pool -T 2 -L 3 --ops cmxyAF --bound 1 --budget %d' % b))
            if not q: cj.append(conc(impl, api, 'pool -T 4 -L 1 --ops cyk --bound 2 --budget %d' % b))
    if not q: cj.append(conc('fcontext', 0, 'pool -T 2 -L 2 --bound 2 --budget 100', cxx='clang++', opt='-O0'))
    for nx, mx in ((1, 0), (2, 3), (3, 2)):
        jobs.append(al(3, 'seq -K 3 -S 2 --len %d --next %d --max %d --budget 60' % (6 if q else 8, nx, mx)))
    run_graph(res, cj + jobs)
    run_enum(res, [al(3, 'many --next %d --max %d' % x) for x in ((1, 0), (2, 3), (32, 0))], 'many_copies')
    res.assumptions += CONC_ASSUME + AL_ASSUME

@check('C14', 'model_checking', 'exhaustive enumeration of system answers x orders of questions in fresh processes on the real code; all schedules of concurrent first calls up to a preemption bound')
def c14(res, tier):
    q = tier == 'quick'
    cj, en = [], []
    for c in ([Cfg('fcontext'), Cfg('ucontext', '11', '-O0', asserts=True)] if q else [Cfg('fcontext'), Cfg('ucontext', '11', '-O0', asserts=True), Cfg('fcontext', '20', '-O3', 'clang++', asserts=True), Cfg('fcontext', '14', '-O1', shared=True)]):
        en.append(Job('traits.cpp', c, [], ['3', 'quick'] if q else ['3', 'full'], ldextra=TWRAP) if not c.shared else Job('traits.cpp', Cfg('fcontext', '14', '-O1'), [], ['4', 'quick'], ldextra=TWRAP))
    cj.append(conc('fcontext', 0, 'traits -T 2 -L 2 --ops upMa --bound %d --budget %d' % (2 if q else 4, 60 if q else 200)))
    cj.append(conc('fcontext', 0, 'traits -T 2 -L 1 --bound %d --budget %d' % (3 if q else 6, 60 if q else 200)))
    cj.append(conc('fcontext', 0, 'traits -T 3 -L 1 --ops upMA --bound %d --budget %d' % (2 if q else 4, 60 if q else 200)))
    if not q:
        cj.append(conc('fcontext', 0, 'traits -T 2 -L 2 --bound 2 --budget 100', cxx='clang++', opt='-O0'))
        cj.append(conc('fcontext', 0, 'traits -T 4 -L 1 --ops upM --bound 2 --budget 100'))
    run_graph(res, cj)
    run_enum(res, en, 'system_states', parallel=False)
    res.assumptions += CONC_ASSUME + ['the page size and the signal-stack minimum do not change while a process runs; the hard limit may', 'sysconf() and getrlimit() succeed for these well-known names', 'the signal-stack minimum is at most 32 KiB (larger ones exist on no machine known; 128 KiB would then be below the minimum)']

@check('C15', 'model_checking', 'exhaustive exploration of all thread schedules up to a preemption bound of the real library under a controlled scheduler with data-race detection; explicit-state exploration of all migration histories executed in lockstep with the model')
def c15(res, tier):
    q = tier == 'quick'
    cj, ej = [], []
    for impl in IMPLS:
        for api in (0, 1):
            b = 40 if q else 60
            cj.append(conc(impl, api, 'ctx -T 2 -L 2 --bound %d --budget %d' % (1 if q else 3, b)))
            cj.append(conc(impl, api, 'ctx -T 2 -L 3 --ops ntrwdg --bound %d --budget %d' % (1 if q else 2, b)))
            cj.append(conc(impl, api, 'ctx -T 3 -L 2 --ops ntrdg --bound %d --budget %d' % (1 if q else 2, b)))
            cj.append(conc(impl, api, 'ctx -T 2 -L 2 --ops tprwed --pre 1 --bound 2 --budget %d' % b))
    for cfg, api in four():
        ej.append(ea(cfg, api, 0, A('-N 3 -T 2 --hist 1 --depth %d --ops NEW,RES,RET,DEL,SW,TEND --budget 40' % (9 if q else 11))))
        ej.append(ea(cfg, api, 1, A('-N 2 -T 3 -F 2 --hist 1 --depth %d --ops NEW,RES,RET,DEL,RWITH,CALL,THROW,SW,TEND --kinds td --budget 40' % (7 if q else 9))))
    for k, (cfg, api) in enumerate((lto(i, c, o), a) for i in IMPLS for c in ('g++', 'clang++') for o in ('-O2', '-O3') for a in (0, 1)):
        if q and cfg.opt == '-O3': continue
        ej.append(ea(cfg, api, 0, A('-N 3 -T 2 --hist 1 --depth %d --ops NEW,RES,RET,DEL,SW,TEND --budget 40' % (9 if q else 11))))
        ej.append(ea(cfg, api, 1, A('-N 2 -T 3 -F 2 --hist 1 --depth %d --ops NEW,RES,RET,DEL,RWITH,CALL,THROW,SW,TEND --kinds td --budget 40' % (6 if q else 8))))
    run_graph(res, cj)
    run_ea(res, ej)
    res.assumptions += CONC_ASSUME + EA_ASSUME + ['a context is handed to another thread with ordinary synchronisation; a context that never ran on a thread\'s own behalf may outlive that thread']

# ---------------------------------------------------------------- callables, layouts, helpers
@check('C21', 'exploration', 'exhaustive enumeration of arities x element kinds x value categories x callables x results on the real helpers against independently computed expectations')
def c21(res, tier):
    q = tier == 'quick'
    en = []
    h = lambda std, cxx, d, **kw: Job('helpers.cpp', Cfg('fcontext', std, '-O0', cxx, **kw), d, nolib=True)
    if q:
        en = [h('11', 'g++', ['NMIX=3', 'INVN=2']), h('14', 'clang++', ['NMIX=2', 'INVN=2']), h('17', 'g++', ['NMIX=2', 'INVN=3']), h('17', 'clang++', ['NMIX=3', 'INVN=2', 'BOOST_NO_CXX17_STD_INVOKE']), h('20', 'g++', ['NMIX=3', 'INVN=2']), h('20', 'g++', ['NMIX=2', 'INVN=2', 'BOOST_NO_CXX17_STD_INVOKE'])]
    else:
        for s in ('11', '14', '17', '20'):
            for c in ('g++', 'clang++'):
                for x in ([], ['BOOST_NO_CXX17_STD_INVOKE']): en.append(h(s, c, ['NMIX=4' if not x else 'NMIX=3', 'INVN=4' if not x else 'INVN=3'] + x))
    run_enum(res, en, 'evaluations')
    res.cov['rule'] = 'each call of a helper with one combination of arity, element kinds, value categories, kind of function and kind of result; non-trivial: involves values, not only types'
    res.assumptions += ['element types: copyable, move-only, references; functions with all four call qualifiers; results: void, value, move-only, three kinds of reference']

@check('C09', 'model_checking', 'exhaustive enumeration of callable/allocator sizes and alignments x stack sizes x placements (every residue of the upper end) x creation forms x endings on the real library with guard bands')
def c09(res, tier):
    q = tier == 'quick'
    en = []
    z = ['-Wl,-z,now']
    for cfg, api in four():
        en.append(Job('layout.cpp', cfg, ['API=%d' % api, 'PART=%d' % (0 if q else 1)], ['quick' if q else 'full'], ldextra=z, timeout=800))
    for cfg, api in four() + [(Cfg('ucontext', '17', '-O1', defs=MACOS), 0), (Cfg('ucontext', '14', '-O2', 'clang++', defs=MACOS), 1), (Cfg('ucontext', '17', '-O2', 'clang++', defs=FREEBSD), 0), (Cfg('ucontext', '11', '-O0', defs=FREEBSD), 1)]:
        en.append(where(cfg, api))
    for cfg, api in [(Cfg('ucontext', '17', '-O2', defs=MACOS + FREEBSD), 0)] + ([] if q else [(Cfg('ucontext', '17', '-O0', defs=MACOS + FREEBSD), 1)]):
        en.append(Job('layout.cpp', cfg, ['API=%d' % api, 'PART=0'], ['quick'], ldextra=z, timeout=800))
    for cfg, api in four(std='11', opt='-O0', cxx='clang++'): en.append(Job('layout.cpp', cfg, ['API=%d' % api, 'PART=0'], ['quick' if q else 'full'], ldextra=z, timeout=800))
    if not q:
        for std, opt, cxx in (('20', '-O3', 'clang++'), ('14', '-O1', 'g++')):
            for cfg, api in four(std=std, opt=opt, cxx=cxx): en.append(Job('layout.cpp', cfg, ['API=%d' % api, 'PART=1'], ['quick'], ldextra=z, timeout=800))
    run_enum(res, en, 'layouts')
    res.assumptions += ['objects aligned to more than 256 bytes are not supported by the library', 'a context that finishes normally needs at most 3 KB below its stored objects here, one that is unwound at most 24 KB (measured needs of the C++ run-time system)', 'before C++17 over-aligned functions given to resume_with() of the ucontext implementation are limited by std::function']

@check('C17', 'model_checking', 'exhaustive enumeration of callable forms x value categories x creation forms (or resume_with targets) x endings on the real library with every instance tracked against an instance-lifetime model')
def c17(res, tier):
    q = tier == 'quick'
    en = []
    z = dict(ldextra=['-Wl,-z,now'], timeout=800)
    cf = [('17', '-O0', 'g++', []), ('11', '-O0', 'clang++', [])] if q else [(s, o, c, d) for s in ('11', '14', '17', '20') for o, c in (('-O0', 'clang++'), ('-O2', 'clang++'), ('-O1', 'g++')) for d in ([], ['BOOST_NO_CXX17_STD_INVOKE'])]
    if not q: cf += [('23', '-O0', 'g++', []), ('14', '-O0', 'g++', ['BOOST_NO_CXX14_STD_EXCHANGE', 'BOOST_NO_CXX14_GENERIC_LAMBDAS'])]
    for std, opt, cxx, d in cf:
        for cfg, api in four(std=std, opt=opt, cxx=cxx): en.append(Job('callable.cpp', cfg, ['API=%d' % api] + d, ['all'], **z))
    if q: en.append(Job('callable.cpp', Cfg('ucontext', '14', '-O0', 'clang++'), ['API=0', 'BOOST_NO_CXX17_STD_INVOKE'], ['all'], **z)); en.append(Job('callable.cpp', Cfg('fcontext', '20', '-O1', 'clang++'), ['API=1', 'BOOST_NO_CXX17_STD_INVOKE'], ['all'], **z))
    run_enum(res, en, 'uses_of_callables')
    res.assumptions += ['functions given to resume_with() of the ucontext implementation have to be copyable (std::function), as before; over-aligned ones only from C++17 on', 'copying or moving the function given to a new context does not throw']

# ---------------------------------------------------------------- Windows implementation
@check('C23', 'model_checking', 'explicit-state exploration of all context histories on the real Windows-fiber classes (over a stand-in fiber interface that rejects wrong uses), every transition executed in lockstep with the model; exhaustive fault injection and enumeration of stack sizes on the Windows allocator')
def c23(res, tier):
    q = tier == 'quick'
    W = lambda std='17', opt='-O1', cxx='g++', **kw: Cfg('winfib', std, opt, cxx, **kw)
    cf = [W(), W('11', '-O0', 'clang++', asserts=True)] if q else [W(), W('11', '-O0', 'clang++', asserts=True), W('14', '-O2', defs=['_WIN32_WINNT=0x0601'], asserts=True), W('20', '-O3', 'clang++')]
    ej, gj, en = [], [], []
    for k, c in enumerate(cf):
        for api in (0, 1):
            if k == 0 or not q:
                ej += [ea(c, api, 0, A(a)) for a in (
                    ['-N 5 --ops NEW,RES,RET --budget 30', '-N 3 --ops NEW,RES,RET,DEL,HOLD --hist 2 --depth 11 --budget 30', '-N 2 -F 2 --hist 2 --rwforms 4 --depth 10 --ops NEW,RES,RET,RWITH,CALL,THROW,HOLD --kinds pt --budget 30',
                     '-N 2 -F 3 --delforms 3 --depth 8 --ops NEW,RES,RET,DEL,HOLD,CALL,RWITH,THROW --kinds ptrd --newforms 3 --budget 40', '-N 2 -F 4 --depth 9 --hist 1 --ops NEW,RES,RET,CALL,THROW,RWITH,DEL --kinds tr --budget 30',
                     '-N 2 -T 2 -F 2 --hist 1 --depth 8 --ops NEW,RES,RET,DEL,RWITH,SW,TEND --budget 30', '--mode pump -N 2 -F 2 --ops NEW,RES,RET,DEL,RWITH --newforms 3 --pump 200 --pumplen 4 --pumppre 2 --budget 30'] if q else
                    ['-N 5 --ops NEW,RES,RET --budget 60', '-N 4 --ops NEW,RES,RET,DEL,HOLD --hist 2 --depth 12 --budget 60', '-N 2 -F 2 --hist 2 --rwforms 4 --ops NEW,RES,RET,RWITH,CALL,THROW,HOLD --kinds pt --budget 60',
                     '-N 2 -F 3 --delforms 3 --depth 9 --ops NEW,RES,RET,DEL,HOLD,CALL,RWITH,THROW --kinds ptrd --newforms 3 --budget 90', '-N 2 -F 5 --depth 11 --hist 1 --ops NEW,RES,RET,CALL,THROW,RWITH,DEL --kinds tr --budget 60',
                     '-N 3 -T 2 -F 2 --hist 1 --depth 10 --ops NEW,RES,RET,DEL,RWITH,SW,TEND --budget 60', '--mode pump -N 3 -F 2 --ops NEW,RES,RET,DEL,RWITH --newforms 3 --pump 1000 --pumplen 5 --pumppre 3 --budget 60'])]
                gj.append(Job('handles.cpp', c, ['API=%d' % api], A('graph -K 3 --len 4 --budget 60')))
                for k2 in (0, 2, 3): en.append(Job('fault.cpp', c, ['API=%d' % api, 'ALLOC=%d' % k2], ldextra=WRAP))
            else: ej.append(ea(c, api, 0, A('-N 2 -F 3 --delforms 3 --hist 1 --depth 6 --ops NEW,RES,RET,DEL,HOLD,CALL,RWITH,THROW --kinds ptrd --newforms 3 --rwforms 4 --budget 40')))
            en.append(Job('escape.cpp', c, ['API=%d' % api])); en += [crowd(c, api, 300 if q else 5000), where(c, api, 'WHERE_FOREIGN')]
            en.append(Job('callable.cpp', c, ['API=%d' % api], ['all'], ldextra=['-Wl,-z,now'], timeout=800))
            if not q: en.append(Job('layout.cpp', c, ['API=%d' % api, 'PART=0'], ['quick'], ldextra=['-Wl,-z,now'], timeout=800))
        en.append(Job('api_all.cpp', c, ['FIRST=%d' % k]))
    for w in ('0x0600', '0x0601', '0x0A00'):
        for api in (0, 1):
            if w != '0x0A00' or not q: en.append(Job('winhost.cpp', W('17' if w == '0x0601' else '11', '-O1', 'g++' if api else 'clang++', defs=['_WIN32_WINNT=' + w], asserts=w == '0x0600'), ['API=%d' % api], A('--len %d --budget 100' % (4 if q else 5)), timeout=400))
    for c in cf[:1] if q else cf:
        for p in (4096, 16384): en.append(al(2, 'sizes --page %d' % p, c))
        gj.append(al(2, 'seq -K 2 -S 3 --len %d --fault 1 --budget 60' % (4 if q else 6), c))
    run_enum(res, en, 'scenarios')
    run_graph(res, gj)
    run_ea(res, ej)
    res.assumptions += EA_ASSUME + ['a stand-in implements the documented behaviour of the Windows fiber and memory functions on this machine and ends the program on wrong uses (switching to a running or deleted fiber, returning from a fiber\'s function, deleting a running fiber, leaks)', 'stacks of fibers belong to the operating system: the stack object given by the user only holds the record']

# ---------------------------------------------------------------- processor ports
PORTS = 'arm64 arm64be arm armsoft riscv64 loongarch64 mips32 mips32be mips64 mips64be ppc32 ppc64 ppc64v1 s390x sparc64 i386 x86_64'.split()
def run_ports(res, tier, names, total):
    q = tier == 'quick'
    jobs = [(p, 8, 2) for p in names] if q else [(p, d, k) for p in names for d, k in ((9, 2), (7, 3))]
    me = os.path.join(vlib.VERIF, 'ports.py')
    def one(j):
        p, d, k = j
        left = max(30, total - (time.time() - vlib.T0))
        rc, o, e = vlib.run([sys.executable, me, p, '--depth', str(d), '--ctx', str(k), '--budget', '%.0f' % (left if q else min(left, 330))], 860)
        js = None
        for l in o.splitlines():
            if l.startswith('{'): js = json.loads(l)
        if js is None: raise RuntimeError('ports.py %s: status %s\n%s' % (p, rc, (e or o)[-2000:]))
        return j, js
    for (p, d, k), js in vlib.pmap(one, jobs):
        n = 'port %s, %d contexts, depth %d' % (p, k, d)
        if js.get('notcovered'):
            res.exhaustive = False; res.notes.append('%s not covered: %s' % (p, js['notcovered'])); continue
        res.configs.append(n)
        if js.get('violation'): res.violation(js['violation']['message'] + '; history: ' + js['violation']['path'], dict(kind='ports', args=js['violation']['replay'])); continue
        if js.get('capped'): res.exhaustive = False; res.notes.append('time limit reached: %s' % n)
        res.add(states=js['states'], transitions=js['transitions'], traces_validated_against_impl=js['traces'], instructions_executed=js['instructions'])
        for s in js.get('samples', [])[-1:]: res.sample(s, 24)
PORT_ASSUME = ['the interpreter executes each instruction as its architecture manual defines it (disassembly by llvm-objdump); an instruction it does not know leaves the port uncovered and is reported as such', 'contexts of one module (one global pointer / table of contents)']
@check('C19', 'model_checking', 'explicit-state exploration of all make/jump/on-top histories; every transition executes the assembled instructions of the port on an instruction-level interpreter, with a signal after every instruction')
def c19(res, tier):
    run_ports(res, tier, PORTS, 780 if tier == 'quick' else 420)
    res.assumptions += PORT_ASSUME + ['vector registers and floating-point control registers only where the convention or the port keeps them (x86 control words, s390x fpc, ppc32 fpscr, ppc condition fields 2-4)']

PORTS2 = 'mac-arm64 mac-arm mac-x86_64 mac-i386 mac-arm64-combined mac-arm-combined mac-x86_64-combined mac-i386-combined mac-x86_64-combined2 mac-i386-combined2 win-x86_64-clang win-x86_64-gas win-x86_64-masm win-i386-clang win-i386-gas win-i386-masm win-arm64-clang win-arm64-armasm win-arm-armasm'.split()
@check('C24', 'model_checking', 'explicit-state exploration of all make/jump/on-top histories; every transition executes the assembled instructions of the port on an instruction-level interpreter, with a signal after every instruction')
def c24(res, tier):
    run_ports(res, tier, [p for p in PORTS2 if tier != 'quick' or 'combined' not in p or p.endswith('86_64-combined')], 780 if tier == 'quick' else 420)
    res.assumptions += PORT_ASSUME + ['files for assemblers that are not available here are translated line by line (armasm) or assembled by llvm-ml after removing BOOST_CONTEXT_EXPORT, assume and PROTO (masm)', 'the memory of an argument passed by reference belongs to the called function only until the suspended side of the switch runs again']

VARIANTS = 'x86_64-cet x86_64-guard i386-guard x86_64-tsx i386-tsx x32'.split()
@check('C25', 'model_checking', 'explicit-state exploration of all make/jump/on-top histories of the assembled variants on an instruction-level interpreter with shadow stacks; explicit-state exploration of all context histories and exhaustive fault injection on the real classes over a stand-in for the shadow-stack interface of the kernel')
def c25(res, tier):
    q = tier == 'quick'
    run_ports(res, tier, VARIANTS, 780 if q else 300)
    S = lambda std='17', opt='-O1', cxx='g++', **kw: Cfg('shstk', std, opt, cxx, **kw)
    cf = [S(), S('11', '-O0', 'clang++', asserts=True)] if q else [S(), S('11', '-O0', 'clang++', asserts=True), S('14', '-O2', asserts=True), S('20', '-O3', 'clang++')]
    ej, en = [], []
    for k, c in enumerate(cf):
        for api in (0, 1):
            en.append(Job('escape.cpp', c, ['API=%d' % api])); en += [crowd(c, api, 260 if q else 1025), where(c, api)]
            if k and q: ej.append(ea(c, api, 0, A('-N 2 -F 3 --delforms 3 --hist 1 --depth 6 --ops NEW,RES,RET,DEL,HOLD,CALL,RWITH,THROW --kinds ptrd --newforms 3 --rwforms 4 --budget 40'))); continue
            for a in ['-N 4 --ops NEW,RES,RET --budget 30', '-N 3 --ops NEW,RES,RET,DEL,HOLD --hist 1 --newforms 3 --depth %d --budget 40' % (8 if q else 10), '-N 2 -F 3 --delforms 3 --depth %d --ops NEW,RES,RET,DEL,HOLD,CALL,RWITH,THROW --kinds ptrd --newforms 3 --budget 50' % (6 if q else 8),
                      '-N 2 -T 2 -F 2 --hist 1 --depth %d --ops NEW,RES,RET,DEL,RWITH,SW,TEND --budget 40' % (6 if q else 8), '--mode pump -N 2 -F 2 --ops NEW,RES,RET,DEL,RWITH --newforms 3 --pump %d --pumplen 4 --pumppre 2 --budget 40' % (200 if q else 1000)]: ej.append(ea(c, api, 0, A(a)))
            for k2 in (0, 1, 2, 3): en.append(Job('fault.cpp', c, ['API=%d' % api, 'ALLOC=%d' % k2], ldextra=WRAP))
            if not q: en.append(Job('layout.cpp', c, ['API=%d' % api, 'PART=0'], ['quick'], ldextra=['-Wl,-z,now'], timeout=800))
        en.append(Job('api_all.cpp', c, ['FIRST=%d' % (k % 2)]))
        en += [Job('shsize.cpp', c, ['API=%d' % api]) for api in (0, 1)]
    run_ea(res, ej)
    run_enum(res, en, 'scenarios')
    res.assumptions += PORT_ASSUME + EA_ASSUME + ['shadow stacks behave as the processor manual defines them (call, ret, rdssp, rstorssp, saveprevssp, incssp); indirect branch tracking is not modelled', 'map_shadow_stack() answers as Linux 6.6 and later do', 'on-top functions of raw contexts only on contexts that already ran']

# ---------------------------------------------------------------- start and end of programs and threads
@check('C26', 'model_checking', 'exhaustive enumeration of operation sequences over the points in the life of a process (static and thread-local constructors and destructors, atexit, exit() inside contexts), each executed as a process of its own on the real library and compared with a model')
def c26(res, tier):
    q = tier == 'quick'
    L = lambda impl, std='17', opt='-O1', cxx='g++', **kw: Cfg(impl, std, opt, cxx, **kw)
    cf = [(L(i), 2) for i in IMPLS + ('winfib',)] + [(L(i, '11', '-O0', 'clang++', asserts=True), 2) for i in IMPLS] + [(L(i, shared=True), 1) for i in IMPLS] + [(L('winfib', '11', '-O0', 'clang++', asserts=True), 1)]
    if not q: cf = [(c, 3 if k < 3 or c.asserts else 2) for k, (c, n) in enumerate(cf)] + [(L('ucontext', '20', '-O3', 'clang++'), 2), (L('fcontext', '20', '-O3', 'clang++', shared=True), 2)]
    run_enum(res, [Job('life.cpp', c, ['API=%d' % a], A('--active %d --budget %d' % (n, 60 if q else 100)), timeout=400) for c, n in cf for a in (0, 1)], 'processes', parallel=False)
    res.assumptions += ['a context is not destroyed through an object that outlives a thread whose own stack it denotes', 'on Windows the stand-in of the fiber interface is used']

# ---------------------------------------------------------------- debugger support
VG = ['valgrind', '-q', '--error-exitcode=9', '--trace-children=yes', '--child-silent-after-fork=no', '--errors-for-leak-kinds=definite', '--num-callers=20']
@check('C27', 'model_checking', 'explicit-state exploration of context and allocator histories on the real library built with debugger support: over a stand-in that records every announcement, compared with the model of live stacks after each operation, and under memcheck itself, which judges every access of every explored history')
def c27(res, tier):
    q = tier == 'quick'
    jobs, gj, ej = [], [], []
    sh = dict(defs=['BOOST_USE_VALGRIND'], flags=['-I', os.path.join(vlib.SRC, 'vgshim')])
    for impl in IMPLS:
        for api in (0, 1):
            for k in (1, 2, 3):
                if q and (k + api + (impl == 'ucontext')) % 2: continue
                jobs.append(ea(Cfg(impl, opt='-O1', **sh), api, k, A('-N 3 -F 2 --newforms 3 --delforms 2 --depth %d --ops NEW,RES,RET,DEL,HOLD,RWITH --budget 40' % (6 if q else 9))))
    for c in [Cfg('fcontext', **sh)] + ([] if q else [Cfg('fcontext', '11', '-O0', 'clang++', asserts=True, **sh)]):
        for k in (1, 2, 3):
            gj.append(al(k, 'seq -K 2 -S 3 --len %d --fault 1 --budget 60' % (5 if q else 6), c)); ej.append(al(k, 'sizes --page 4096', c)); ej.append(al(k, 'many', c))
    for impl in IMPLS:
        for api in (0, 1):
            for opt, std, cxx in ([('-O1', '17', 'g++')] if q else [('-O1', '17', 'g++'), ('-O2', '20', 'clang++')]):
                c = Cfg(impl, std, opt, cxx, defs=['BOOST_USE_VALGRIND'])
                ej.append(Job('san.cpp', c, ['API=%d' % api], ['clean'], prefix=VG))
                for k in (1, 2, 3):
                    if q and k != 1 + (api + 2 * (impl == 'ucontext')) % 3: continue
                    jobs.append(ea(c, api, k, A('-N 2 -F 3 --newforms 3 --hist 1 --delforms 3 --depth %d --ops NEW,RES,RET,DEL,RWITH,THROW,CALL --kinds tr --budget 60' % (5 if q else 6)), prefix=VG, timeout=400))
    run_ea(res, jobs)
    run_graph(res, gj)
    run_enum(res, ej, 'scenarios')
    res.assumptions += EA_ASSUME + ['memcheck 3.22 on x86_64']
