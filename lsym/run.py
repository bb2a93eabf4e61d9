"""Runs the jobs of a check on all cores, replays what the solver finds on the native build, writes the evidence."""
import os, sys, time, json, pickle, random, signal, subprocess, tempfile, shutil, traceback, gc, re
import multiprocessing as mp
import z3
from . import build as bld
from .ir import read_module
from .engine import Program, Engine, PathEnd, Inconclusive
from .bv import Unsupported
from . import bv as B
from . import ext, fl, par

SKIP = ('proc_macro', 'gimli', 'object', 'addr2line', 'miniz_oxide', 'rustc_demangle', 'adler2', 'rand', 'rand_core', 'cfg_if', 'unwind', 'panic_unwind', 'rustc_literal_escaper')
NCPU = int(os.environ.get('LSYM_CPUS', os.cpu_count() or 8))


def load(lls):
    mods = []
    seen = {}
    for p in lls:
        if os.sep + 'debug' + os.sep + 'deps' + os.sep not in p:
            continue
        crate = os.path.basename(p).rsplit('-', 1)[0]
        if crate in SKIP or os.path.getsize(p) < 1000:
            continue
        if crate in seen and os.path.getmtime(seen[crate]) > os.path.getmtime(p):
            continue
        seen[crate] = p
    for crate, p in sorted(seen.items(), key=lambda x: (x[0] != 'harness', x[0])):
        mods.append(read_module(p, crate))
    return Program(mods)


class Job:
    """one harness with one set of parameters; bounds is the sentence for the evidence; need: reach marks that some path must hit"""

    def __init__(self, harness, params=(), bounds='', need=(), split=True, validate=6, max_conc=64, setup=None, runner=None, timeout_ms=60000, max_violations=1, cost=0, par=None):
        self.harness = harness
        self.params = list(params)
        self.bounds = bounds
        self.need = need
        self.split = split
        self.validate = validate
        self.max_conc = max_conc
        self.setup = setup
        self.runner = runner
        self.timeout_ms = timeout_ms
        self.max_violations = max_violations
        self.cost = cost
        self.par = par          # bounds of lsym_par

    @property
    def name(self):
        return self.harness + ('(' + ','.join(str(p) for p in self.params) + ')')


def evalv(m, v):
    if v.__class__ is int:
        return v
    if v.__class__ is float:
        return int(v)
    if isinstance(v, z3.BoolRef):
        return int(z3.is_true(m.eval(v, model_completion=True)))
    return m.eval(v, model_completion=True).as_long()


def concrete(S, m):
    """(inputs, expected log) of the path under model m"""
    return [evalv(m, v) for w, v in S.inputs], [evalv(m, v) if not fl.B.isf(v) else None for v in S.log]


def native(binary, harness, params, inputs, path=None, timeout=60, sched=()):
    """-> (exit code, log, other output)"""
    own = path is None
    if own:
        fd, path = tempfile.mkstemp(prefix='lsym')
        os.close(fd)
    with open(path, 'w') as f:
        f.write('# replay with: %s %s <this file>\n' % (binary, harness))
        f.write('H %s\n' % harness)
        for p in params:
            f.write('P %d\n' % p)
        for i in inputs:
            f.write('I %d\n' % i)
        for l in sched:
            f.write(l + '\n')
    try:
        p = subprocess.run([binary, harness, path], capture_output=True, text=True, timeout=timeout, errors='replace')
        code, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        code, out = -99, ''
    finally:
        if own:
            os.unlink(path)
    log = []
    rest = []
    for l in out.split('\n'):
        if l.startswith('LOG '):
            log.append(int(l[4:]))
        elif l and not l.startswith('IGN'):
            rest.append(l)
    return code, log, rest


class Ctx:
    """what one worker process collects; plain data only"""

    def __init__(self, job):
        self.job = job
        self.paths = {}
        self.instrs = 0
        self.queries = self.sat = self.unsat = 0
        self.solver_s = 0.0
        self.checks = 0
        self.errors = []
        self.violations = []
        self.validated = 0
        self.samples = []
        self.reach = set()
        self.panics = {}
        self.funcs = {}
        self.spurious = 0
        self.par = []


def replaydir():
    d = os.path.join(bld.VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    return d


class Worker:
    def __init__(self, runner, job, prop):
        self.r = runner
        self.job = job
        self.prop = prop
        self.ctx = Ctx(job.name)
        self.okn = 0
        self.nextval = 1
        self.vtags = {}

    def on_end(self, S, e):
        c = self.ctx
        if e.kind in ('ok',):
            self.okn += 1
            if self.okn >= self.nextval and c.validated < self.job.validate:
                self.nextval = self.okn * 3 + random.randrange(3)
                self.validate(S)
            return
        if e.kind in ('violation', 'panic', 'memory', 'abort', 'deadlock'):
            self.candidate(S, e)

    def models(self, S):
        """concrete models of the path to try, most convenient first"""
        solver = S.eng.solver
        conc = getattr(self.job, 'concretise', None)
        if conc:
            yield from conc(S)
            return
        if S.env.get('fsyms'):
            from . import conc as cz
            yield from cz.models(S)
            return
        if self.job.par:
            # replayable ones: no compare-exchange fails without cause
            ns = [z3.Not(e.r == B.bv(e.x[1], 8 * e.n)) for _, evs, _, gone, _ in S.env.get('sched', ()) for e in evs if e.x.__class__ is tuple and id(e) not in gone]
            m = solver.check(S.pc, z3.And(ns)) if ns else None
            if m is not None:
                yield m
            if ns:
                m = solver.check(S.pc)
                if m is not None:
                    yield m
                return
        m0 = S.model if S.model is not None else None
        small = [z3.ULE(v, 4096) for w, v in S.inputs if v.__class__ is not int and w >= 32]
        if small:
            try:
                m = solver.check(S.pc, z3.And(*small))
            except Inconclusive:
                m = None
            if m is not None:
                yield m
        if m0 is None:
            m0 = solver.check(S.pc)
        if m0 is not None:
            yield m0

    def native(self, S, m, ins, path=None):
        if self.job.par:
            return native(self.r.par_binary, self.job.harness, self.job.params, ins, path, sched=par.schedule(S, m))
        return native(self.r.binary, self.job.harness, self.job.params, ins, path)

    def validate(self, S):
        try:
            for m in self.models(S):
                ins, log = concrete(S, m)
                break
            else:
                return
            if self.job.par and par.spurious(S, m):
                return
        except Inconclusive:
            return
        code, nlog, rest = self.native(S, m, ins)
        c = self.ctx
        exp = log
        if S.env.get('fsyms') and (code != 0 or len(nlog) != len(exp) or any(a is not None and a != b for a, b in zip(exp, nlog))):
            # a path of the over-approximation may be infeasible for the particular numbers
            c.spurious += 1
            if code in (1, 2):
                self.confirmed(S, m, ins, 'on a run sampled from the proof', rest)
            return
        if code != 0 or len(nlog) != len(exp) or any(a is not None and a != b for a, b in zip(exp, nlog)):
            if code in (1, 2):
                # the real code breaks the property on this input, whatever the encoding thinks
                self.confirmed(S, m, ins, 'on a run sampled from the proof', rest)
                return
            c.errors.append('the native run disagrees with the encoding: %s inputs %s: exit %d, log %s, expected %s, %s' % (self.job.name, ins[:40], code, nlog[:20], exp[:20], rest[:3]))
            return
        c.validated += 1
        if len(c.samples) < 3:
            c.samples.append({'job': self.job.name, 'inputs': ins[:40], 'native_log': nlog[:20]})

    def candidate(self, S, e):
        c = self.ctx
        what = '%s %s' % (e.kind, e.info if e.info is not None else '')
        k = str((e.kind, e.info))
        if self.vtags.get(k, 0) >= 4:
            return
        self.vtags[k] = self.vtags.get(k, 0) + 1
        tried = 0
        last = None
        if S.env.get('fsyms'):
            try:
                if S.eng.solver.check(S.pc) is None:
                    # the lemmas about the numbers involved rule the path out
                    self.vtags[k] -= 1
                    return
            except Inconclusive:
                pass
        try:
            for m in self.models(S):
                ins, log = concrete(S, m)
                tried += 1
                if self.job.par and par.spurious(S, m):
                    # no native run can be made to follow: the executor's own schedule is the evidence
                    self.confirmed(S, m, ins, what, ['ASSERT not run natively: a weak compare-exchange fails spuriously, or there is an atomic minimum or maximum'])
                    return
                code, nlog, rest = self.native(S, m, ins)
                last = (ins, code, rest)
                if code in (1, 2) or code < 0 and code != -99:
                    self.confirmed(S, m, ins, what, rest)
                    return
                if e.kind == 'deadlock' and code == -99:
                    self.confirmed(S, m, ins, what, ['the native run hangs'])
                    return
        except Inconclusive as x:
            last = (str(x), 0, [])
        c.errors.append('unconfirmed: %s in %s (%d native runs, last %s) at %s' % (what, self.job.name, tried, last, S.eng.where(S)))

    def confirmed(self, S, m, ins, what, rest):
        tag = ''
        for l in rest:
            if l.startswith('ASSERT'):
                tag = l
        if not tag:
            tag = ' '.join(rest[-2:])
        path = os.path.join(replaydir(), '%s-%s-%d.txt' % (self.prop, self.job.harness, os.getpid()))
        self.native(S, m, ins, path)
        self.ctx.violations.append({'job': self.job.name, 'what': what, 'native': tag, 'inputs': ins, 'replay': path})
        self.eng.stop = True

    def finish(self):
        c, e = self.ctx, self.eng
        c.paths = e.res.paths
        c.instrs = e.res.instrs
        c.checks = e.res.checks
        c.errors += e.res.errors
        c.queries, c.sat, c.unsat, c.solver_s = e.solver.queries, e.solver.sat, e.solver.unsat, e.solver.time
        c.reach = set(e.reach)
        c.par = list(e.parinfo)
        c.panics = dict(e.panics)
        for fc in e.prog.fc.values():
            if fc.f.ninst:
                c.funcs[fc.f.dem] = fc.f.ninst
        return c


class Runner:
    def __init__(self, prop, tier, seconds, unwind=False):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.deadline = self.t0 + seconds
        self.lls, self.binary, self.par_binary, self.build_s = bld.build(unwind)
        t = time.time()
        self.prog = load(self.lls)
        self.prog.unwind = unwind
        self.load_s = time.time() - t

    def run(self, jobs):
        jobs = sorted(jobs, key=lambda j: -j.cost)
        self.tmp = tempfile.mkdtemp(prefix='lsymrun')
        self.sem = mp.Semaphore(NCPU)
        self.stopv = mp.Value('i', 0)
        gc.collect()
        gc.freeze()
        pids = {}
        try:
            for i, j in enumerate(jobs):
                while not self.sem.acquire(timeout=1):
                    if time.time() > self.deadline + 60:
                        raise TimeoutError
                if self.stopv.value:
                    self.sem.release()
                    break
                pid = os.fork()
                if pid == 0:
                    self.child(j, i, None)
                pids[pid] = j
            stopped = 0
            for pid in list(pids):
                while True:
                    p, st = os.waitpid(pid, os.WNOHANG)
                    if p:
                        break
                    if self.stopv.value and not stopped:
                        stopped = time.time()
                    if time.time() > self.deadline + 60 or stopped and time.time() > stopped + 4:
                        self.killall()
                    time.sleep(0.01)
            res = []
            for f in sorted(os.listdir(self.tmp)):
                if f.endswith('.pkl'):
                    res.append(pickle.load(open(os.path.join(self.tmp, f), 'rb')))
            started = set(f[:-6] for f in os.listdir(self.tmp) if f.endswith('.start'))
            done = set(f[:-4] for f in os.listdir(self.tmp) if f.endswith('.pkl'))
            for s in started - done:
                c = Ctx(s)
                c.errors.append('a worker process died (%s)' % s)
                res.append(c)
            return res
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def killall(self):
        """ends the workers still running"""
        names = os.listdir(self.tmp)
        for f in names:
            if f.endswith('.start') and f[:-6] + '.pkl' not in names:
                try:
                    os.kill(int(f[:-6].split('-')[1]), signal.SIGKILL)
                except (OSError, ValueError):
                    pass

    def child(self, job, i, state):
        """process exploring one job; splits its work with others when a core is free"""
        code = 0
        kids = []
        base = os.path.join(self.tmp, '%d-%d' % (i, os.getpid()))
        open(base + '.start', 'w').close()
        try:
            random.seed(os.getpid() if state is not None else 1)
            w = Worker(self, job, self.prop)
            if job.runner:
                w.ctx = job.runner(self, job, w)
                c = w.ctx
            else:
                self.explore(job, i, w, state, kids)
                c = w.finish()
        except BaseException as e:
            c = Ctx(job.name)
            c.errors.append('internal: %s' % traceback.format_exc()[-1500:])
        if c.violations:
            self.stopv.value = 1
        pickle.dump(c, open(base + '.tmp', 'wb'))
        os.rename(base + '.tmp', base + '.pkl')
        self.sem.release()
        for k in kids:
            while True:
                p, st = os.waitpid(k, os.WNOHANG)
                if p:
                    break
                time.sleep(0.01)
        os._exit(0)

    def explore(self, job, i, w, state, kids):
        if state is None:
            eng = Engine(self.prog, timeout_ms=job.timeout_ms, max_conc=job.max_conc, deadline=self.deadline)
            eng.params = job.params
            eng.stop = False
            if job.par:
                eng.parcfg = job.par
            if job.setup:
                job.setup(eng)
            eng.work = [eng.start(job.harness, [])]
        else:
            eng = state
            eng.stop = False
            from .engine import Result
            eng.res = Result()
            eng.solver = eng.solver.fork()
            eng.reach = set()
            eng.panics = {}
            for fc in eng.prog.fc.values():
                fc.f.ninst = 0
        w.eng = eng
        eng.on_end = w.on_end
        r = eng.res
        last = time.time()
        while eng.work:
            S = eng.work.pop()
            eng.step(S)
            if len(r.errors) + len(w.ctx.errors) > 2:
                break
            if eng.stop or self.stopv.value:
                break
            now = time.time()
            if now > self.deadline:
                r.errors.append('out of time in %s with %d states left' % (job.name, len(eng.work)))
                break
            if job.split and len(eng.work) > 1 and now - last > 0.7:
                last = now
                while len(eng.work) > 1 and self.sem.acquire(block=False):
                    # give away half of the work
                    pid = os.fork()
                    if pid == 0:
                        del kids[:]
                        eng.work = eng.work[::2]
                        job2 = job
                        self.child(job2, i, eng)
                    kids.append(pid)
                    eng.work = eng.work[1::2]


def merge(res):
    t = Ctx('')
    t.job_stats = {}
    t.threads = {}
    for c in res:
        for k, v in c.paths.items():
            t.paths[k] = t.paths.get(k, 0) + v
        for k in ('instrs', 'queries', 'sat', 'unsat', 'solver_s', 'checks', 'validated', 'spurious'):
            setattr(t, k, getattr(t, k) + getattr(c, k))
        t.errors += c.errors
        for n, cut, ln, rounds in c.par:
            t.threads[c.job] = {'paths_per_thread': n, 'paths_cut_by_the_bound': cut, 'longest_paths': ln}
        t.violations += c.violations
        t.samples += c.samples
        for k, v in c.panics.items():
            t.panics[k] = t.panics.get(k, 0) + v
        for k, v in c.funcs.items():
            t.funcs[k] = t.funcs.get(k, 0) + v
        t.job_stats.setdefault(c.job, [set(), 0])
        t.job_stats[c.job][0] |= c.reach
        t.job_stats[c.job][1] += sum(c.paths.values())
    return t


def own(f):
    return 'big_o_test' in f


def check(prop, tier, jobs, seconds, notes, unwind=False):
    """the whole check; returns the exit code"""
    seed = int(os.environ.get('VERIF_SEED', '1'))
    random.seed(seed)
    t0 = time.time()
    try:
        r = Runner(prop, tier, seconds, unwind)
    except bld.BuildError as e:
        print('cannot build: %s' % e)
        return 2
    res = r.run(jobs)
    t = merge(res)
    for j in jobs:
        if t.violations:
            break
        got = t.job_stats.get(j.name, [set(), 0])
        miss = set(j.need) - got[0]
        if miss:
            t.errors.append('%s: nothing reached mark(s) %s' % (j.name, sorted(miss)))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'states': sum(t.paths.values()), 'transitions': t.instrs, 'traces_validated_against_impl': t.validated,
            'samples': t.samples[:6],
            'paths_by_outcome': t.paths,
            'bounds': sorted({j.name + ': ' + j.bounds for j in jobs}),
            'functions_encoded': sorted({f for f in t.funcs if own(f)}),
            'other_functions_executed': len([f for f in t.funcs if not own(f)]),
            'assertions_decided': t.checks,
            'queries_discharged': t.queries, 'queries_sat': t.sat, 'queries_unsat': t.unsat,
            'solver_s': round(t.solver_s, 2), 'build_s': round(r.build_s, 2), 'load_s': round(r.load_s, 2),
            'caught_panics': t.panics,
            'note': notes,
            'errors': t.errors[:10],
        },
    }
    if t.threads:
        ev['coverage']['threads'] = t.threads
    if t.spurious:
        ev['coverage']['sampled_paths_without_a_matching_native_run'] = t.spurious
    if t.samples == []:
        ev['coverage']['samples'] = [{'job': j.name, 'bounds': j.bounds} for j in jobs[:3]]
    d = os.path.join(bld.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d paths (%s), %d instructions, %d assertions, %d queries (%.1f s), %d native runs agree, %.1f s' % (
        prop, tier, sum(t.paths.values()), ', '.join('%s %d' % x for x in sorted(t.paths.items())), t.instrs, t.checks, t.queries, t.solver_s, t.validated, time.time() - t0))
    if t.violations:
        for v in t.violations[:3]:
            print('%s: %s; native run: %s; inputs %s' % (v['job'], v['what'], v['native'], v['inputs'][:60]))
        print('VIOLATION property=%s replay=%s' % (prop, t.violations[0]['replay']))
        return 1
    if t.errors:
        for e in t.errors[:6]:
            print('INCONCLUSIVE ' + e)
        return 2
    return 0
