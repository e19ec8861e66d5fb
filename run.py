#!/usr/bin/env python3
"""Solver-based checks of CPPAlliance/url.

run.py PROPERTY [quick|thorough]

Every job compiles one harness together with /repo's current sources to LLVM
IR, executes it symbolically (engine/symx) and decides each assertion for all
inputs within the bounds of the job.  A counterexample is replayed against the
real code, built natively with sanitizers, before it is reported.
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J

REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
HARNESS = os.path.join(HERE, 'harness')
CXX = 'clang++-18'
BASE = ['-std=c++17', '-I' + REPO + '/include', '-I' + HARNESS, '-w']
# IR variants: the first is used; the others only when the engine meets
# something it does not know in the first
IR = [['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops'],
      ['-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin'],
      ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin', '-fno-inline-functions']]

lock = threading.Lock()
procs = set()
stop = threading.Event()


def log(*a):
    with lock:
        print(*a, flush=True)


def call(cmd, timeout, **kw):
    """subprocess that dies with us, on timeout and when another job found a violation"""
    if stop.is_set():
        return None, ''
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    with lock:
        procs.add(p)
    try:
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out.decode('latin-1')
        except subprocess.TimeoutExpired:
            kill(p)
            out, _ = p.communicate()
            return 'timeout', out.decode('latin-1')
    finally:
        with lock:
            procs.discard(p)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def kill_all():
    stop.set()
    with lock:
        ps = list(procs)
    for p in ps:
        kill(p)


class Runner:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=BUILD)
        self.limit = 560 if tier == 'quick' else 7200
        self.results = []          # (job, json)
        self.violations, self.unconfirmed, self.errors, self.incomplete, self.known = [], [], [], [], []
        self.traces = 0
        self.natlock = {}
        self.native_bin = {}

    def left(self):
        return self.limit - (time.time() - self.t0)

    # -- building
    def engine(self):
        out = os.path.join(self.dir, 'engine') if not os.access(BUILD, os.W_OK) else BUILD
        r = subprocess.run(['bash', HERE + '/engine/build.sh', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print(r.stdout.decode()[-2000:])
            sys.exit(2)
        self.symx = out + '/symx'

    def ir(self, job, k):
        o = os.path.join(self.dir, '%s.%d.ll' % (job.name, k))
        c, out = call([CXX] + BASE + IR[k] + ['-S', '-emit-llvm'] + job.defs + [os.path.join(HARNESS, job.file), '-o', o], 300)
        return (o, '') if c == 0 else (None, out)

    def native(self, job):
        with lock:
            lk = self.natlock.setdefault(job.name, threading.Lock())
        with lk:
            if job.name in self.native_bin:
                return self.native_bin[job.name]
            o = os.path.join(self.dir, job.name + '.native')
            c, out = call([CXX] + BASE + ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment,nonnull-attribute,pointer-overflow',
                           '-ftrivial-auto-var-init=pattern'] + job.defs + [os.path.join(HARNESS, job.file), os.path.join(HARNESS, 'native.cpp'), '-o', o], 300)
            if c != 0 and not stop.is_set():
                log('native build of %s failed: %s' % (job.name, out[-800:]))
            self.native_bin[job.name] = o if c == 0 else None
            return self.native_bin[job.name]

    def replay(self, job, inputs, tag):
        b = self.native(job)
        if not b:
            return None, 'no native build'
        f = os.path.join(self.dir, '%s.%s.in' % (job.name, tag))
        with open(f, 'w') as h:
            h.write('\n'.join(map(str, inputs)) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='abort_on_error=0:detect_leaks=0:allocator_may_return_null=0', UBSAN_OPTIONS='print_stacktrace=1')
        return call([b, f], 20, env=env)

    # -- one job
    def run(self, job):
        try:
            self.run_(job)
        except Exception as e:                     # an error of the machinery
            self.errors.append('%s: %r' % (job.name, e))

    def run_(self, job):
        if stop.is_set():
            return
        if self.left() < 20 and not job.need:
            self.incomplete.append((job, 'no time left'))
            return
        d = None
        for k in range(len(IR)):
            ll, out = self.ir(job, k)
            if stop.is_set():
                return
            if not ll:
                self.errors.append('%s does not compile: %s' % (job.name, out[-1500:]))
                return
            js = os.path.join(self.dir, job.name + '.json')
            tl = max(15, min(job.time, self.left()))
            c, out = call([self.symx, ll, 'harness', js, '-time', '%d' % tl, '-z3ms', '10000', '-z3total', '%d' % job.z3total, '-nodes', str(job.nodes), '-iters', str(job.iters)], tl + 120)
            os.unlink(ll)
            if stop.is_set():
                return
            d = None
            if os.path.exists(js):
                try:
                    d = json.load(open(js))
                except ValueError:
                    d = None
                os.unlink(js)
            if d is None:
                d = {'status': 'error', 'message': 'engine ended with %s: %s' % (c, out[-300:]), 'findings': []}
            # findings are judged even if the exploration did not finish
            if self.judge(job, d):
                return
            if d['status'] == 'ok':
                break
            if d['status'] == 'timeout':
                self.incomplete.append((job, d['message']))
                return
            log('  %s: %s%s' % (job.name, d['message'], ', trying another form of the IR' if k + 1 < len(IR) else ''))
        if d['status'] != 'ok':
            self.incomplete.append((job, 'engine: ' + d['message']))
            return
        missing = [r for r in job.reach if not d['reach'].get(r)]
        if missing:
            self.errors.append('%s: never reached: %s' % (job.name, ', '.join(missing)))
        if job.witness and not d['findings']:
            for name, inp in sorted(d['reach_inputs'].items()):
                c, out = self.replay(job, inp, 'w')
                if stop.is_set():
                    return
                if c == 0 and ('REACH ' + name) in out and 'DONE' in out:
                    self.traces += 1
                else:
                    self.errors.append('%s: the real code does not follow the witness for "%s": %s %s' % (job.name, name, inp, out[-300:]))
        with lock:
            self.results.append((job, d))
        log('  %-44s ok  %6.1fs  assertions %d (to the solver %d, z3 %.1fs)' % (job.name, d['wall_s'], d['assert_instances'], d['obligations'], d['z3_s']))

    def judge(self, job, d):
        """replays the findings; True if the job ends here"""
        for n, f in enumerate(d.get('findings', [])):
            c, out = self.replay(job, f['inputs'], 'f%d' % n)
            if stop.is_set():
                return True
            what = '%s: %s' % (f['kind'], f['name'])
            bad = c == 'timeout' or (c not in (0, None) and 'ASSUME-FALSE' not in out)
            if not bad:
                self.unconfirmed.append('%s: %s inputs=%s (native: %s %s)' % (job.name, what, f['inputs'], c, out[-200:].strip()))
                continue
            first = ''
            for line in out.splitlines():
                if re.search(r'ASSERT-FAILED|ERROR: AddressSanitizer|runtime error|Assertion|terminate called', line):
                    first = line.strip()
                    break
            if c == 'timeout':
                first = 'does not end'
            path = self.save(job, f, n, out)
            with lock:
                self.violations.append((job, what, first, path))
            return True
        return False

    def save(self, job, f, n, out):
        d = os.path.join(BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s-%d' % (self.prop, job.name, n))
        with open(p + '.in', 'w') as h:
            h.write('\n'.join(map(str, f['inputs'])) + '\n')
        with open(p + '.sh', 'w') as h:
            h.write('#!/bin/bash\n# %s: %s\n# builds the harness with the real code and runs it on the counterexample\nset -e\no=$(mktemp)\n%s\n$o %s\n' % (
                f['kind'], f['name'], ' '.join([CXX] + BASE + ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment,nonnull-attribute,pointer-overflow',
                           '-ftrivial-auto-var-init=pattern'] + job.defs + [os.path.join(HARNESS, job.file), os.path.join(HARNESS, 'native.cpp'), '-o', '$o']), p + '.in'))
        with open(p + '.out', 'w') as h:
            h.write(out)
        return p + '.sh'

    # -- known findings: each is a concrete input; the check reports whether it still fails
    def probe_known(self):
        f = os.path.join(HERE, 'known', 'findings.json')
        for k in json.load(open(f)):
            if k['property'] != self.prop:
                continue
            job = J.Job(k['file'], k['defs'], time=60)
            job.name = 'known-' + k['id']
            c, out = self.replay(job, k['inputs'], 'k')
            if c == 0 and 'DONE' in out:
                log('known finding %s no longer occurs' % k['id'])
            else:
                self.known.append(k)
                log('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))

    def main(self):
        jobs = J.jobs(self.prop, self.tier)
        need = [j for j in jobs if j.need]
        names = set()
        for j in jobs:
            assert j.name not in names, j.name
            names.add(j.name)
        log('%s (%s): %d jobs' % (self.prop, self.tier, len(jobs)))
        self.engine()
        workers = min(8, os.cpu_count() or 8)
        try:
            ex = cf.ThreadPoolExecutor(workers)
            fs = [ex.submit(self.run, j) for j in sorted(jobs, key=lambda j: (not j.need, -j.cost))]
            fs.append(ex.submit(self.probe_known))
            for x in cf.as_completed(fs):
                x.result()
                if self.violations:
                    kill_all()
                    break
            ex.shutdown(wait=True, cancel_futures=True)
        finally:
            kill_all()
        shutil.rmtree(self.dir, ignore_errors=True)
        return self.finish(jobs, need)

    def finish(self, jobs, need):
        ok = [j for j, _ in self.results]
        failed_need = [j for j in need if j not in ok]
        self.evidence(jobs)
        if self.violations:
            for job, what, first, path in self.violations:
                log('%s: %s\n    %s' % (job.name, what, first))
                log('    bounds: %s' % job.bound)
                log('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        for j, why in self.incomplete:
            log('incomplete: %s (%s)%s' % (j.name, why, ' REQUIRED' if j.need else ''))
        for e in self.unconfirmed:
            log('not confirmed by the real code: ' + e)
        for e in self.errors:
            log('error: ' + e)
        if self.errors or self.unconfirmed or failed_need:
            return 2
        log('%s holds within the bounds of %d jobs, %.0f s' % (self.prop, len(ok), time.time() - self.t0))
        return 0

    def evidence(self, jobs):
        rs = self.results
        S = lambda k: sum(d.get(k, 0) for _, d in rs)
        fns = set()
        models = set()
        for _, d in rs:
            fns |= set(d['functions'])
            models |= set(d['models'])
        lib = sorted(f for f in fns if 'boost4urls' in f)
        samples = []
        for j, d in rs[:6]:
            for n, i in list(d['reach_inputs'].items())[:1]:
                samples.append({'job': j.name, 'witness': n, 'inputs': i})
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
            'coverage': {
                'states': S('blocks'), 'transitions': S('instructions'), 'traces_validated_against_impl': self.traces, 'samples': samples,
                'explanation': 'states: symbolic states executed (one per basic block, each stands for a set of inputs); transitions: LLVM instructions executed symbolically',
                'jobs': [{'job': j.name, 'bound': j.bound, 'seconds': d['wall_s'], 'input_bits': d['input_bits'], 'longest_loop': d['loop_max'], 'assertions': d['assert_instances'],
                          'discharged_while_executing': d['assert_simplified'], 'obligations': d['obligations'], 'obligations_bdd_only': d['bdd_only'], 'bdd_nodes': d['bdd_nodes'],
                          'z3_queries': d['z3_queries'], 'z3_seconds': d['z3_s'], 'z3_unknown': d['z3_unknown']} for j, d in sorted(rs, key=lambda x: x[0].name)],
                'not_completed': [{'job': j.name, 'bound': j.bound, 'why': w} for j, w in self.incomplete],
                'assertions': S('assert_instances'), 'obligations': S('obligations'), 'z3_queries': S('z3_queries'), 'z3_seconds': round(S('z3_s'), 2),
                'functions_encoded': len(fns), 'library_functions_encoded': lib[:400], 'modelled_externals': sorted(models),
                'known_findings': [k['id'] for k in self.known],
            },
            'assumptions': J.ASSUMPTIONS + J.PROPS[self.prop].get('assume', []),
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)


if __name__ == '__main__':
    signal.signal(signal.SIGTERM, lambda *a: (kill_all(), os._exit(2)))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    r = Runner(sys.argv[1], tier)
    try:
        code = r.main()
    finally:
        shutil.rmtree(r.dir, ignore_errors=True)
    sys.exit(code)
