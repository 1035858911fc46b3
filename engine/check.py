"""check.py <property> <quick|thorough>          decide one property
check.py replay <file>                        run a recorded counterexample again"""
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import machine            # noqa: E402
import proofs             # noqa: E402
import witness            # noqa: E402
from machine import MOD   # noqa: E402
from props import PROPS, EXTRA, PANIC_OK, BUDGET, STANDIN, TREE   # noqa: E402

NPROC = int(os.environ.get('VERIF_JOBS', '8'))
PROG = None


def go_env():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
    return env


def go_bin():
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; command -v go'], capture_output=True, text=True).stdout.strip()
    return out or shutil.which('go') or 'go'


def build_dumper():
    out = os.path.join(VERIF, 'bin', 'ssajson')
    os.makedirs(os.path.dirname(out), exist_ok=True)
    src = os.path.join(VERIF, 'tools', 'ssajson')
    subprocess.run([go_bin(), 'build', '-o', out, '.'], cwd=src, env=go_env(), check=True, capture_output=True, text=True)
    return out


class RepoError(Exception):
    pass


def dump(tmp):
    exe = build_dumper()
    path = os.path.join(tmp, 'dump.json')
    env = go_env()
    g = os.path.dirname(go_bin())
    if g:
        env['PATH'] = g + ':' + env.get('PATH', '')
    r = subprocess.run([exe, '-repo', REPO, '-overlay', os.path.join(VERIF, 'specs'), '-o', path], env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise RepoError((r.stdout + r.stderr)[-3000:])
    prog = json.load(open(path))
    os.unlink(path)
    return prog


# ------------------------------------------------------------------ jobs

class Job:
    def __init__(self, kind, name, case=None, level=0, exclude=frozenset(), budget=120):
        self.kind, self.name, self.case, self.level, self.exclude, self.budget = kind, name, case, level, exclude, budget

    def key(self):
        return (self.kind, self.name, self.case)

    def __repr__(self):
        return '%s %s%s level %d' % (self.kind, self.name.rsplit('.', 1)[-1], '' if self.case is None else '[%d]' % self.case, self.level)


def run_job(job):
    opt = {}
    con = proofs.contracts_of(PROG)
    use = {r: c for r, c in con.items() if r not in job.exclude}
    if job.kind == 'lemma':
        if job.level >= 1:
            use = {}
            opt['reveal_all'] = True
        if job.level >= 2:
            opt['exact'] = True
        if job.case is not None:
            opt['split'] = job.case
        r = proofs.run_lemma(PROG, job.name, use=use, budget=job.budget, **opt)
    elif job.kind == 'contract':
        r = proofs.check_contract(PROG, job.name, con[job.name], use=use, budget=job.budget)
    elif job.kind == 'rule':
        r = proofs.check_rewrite(PROG, job.name, budget=job.budget)
    else:
        r = proofs.check_ens(PROG, job.name, budget=job.budget)
    e = r.pop('engine')
    fs = r.pop('failstates')
    r['used_contracts'] = set(e.used_contracts)
    r['used_opaque'] = set(e.used_opaque)
    r['used_models'] = set(e.used_models)
    r['used_rewrites'] = set(e.used_rewrites)
    r['used_funcs'] = set(e.used_funcs)
    r['hints'] = []
    if job.kind == 'lemma' and fs:
        for a, b, st in fs[:6]:
            try:
                w = witness.args_of(e, st, job.name)
                if w is not None:
                    r['hints'].append(w)
            except Exception:
                pass
    r['proved'] = [(a, str(b)[:200]) for a, b in r['proved']]
    r['failed'] = [(a, str(b)[:600]) for a, b in r['failed']]
    return r


def worker(job, conn):
    try:
        import resource
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        r = run_job(job)
    except BaseException as x:
        r = {'status': 'FAILED', 'error': 'internal: %s\n%s' % (x, traceback.format_exc()[-2000:]), 'failed': [], 'proved': [], 'time': 0,
             'paths': 0, 'queries': 0, 'solver_s': 0, 'used_contracts': set(), 'used_opaque': set(), 'used_rewrites': set(), 'used_models': set(), 'used_funcs': set(), 'hints': []}
    try:
        conn.send(r)
    except Exception:
        pass
    conn.close()
    os._exit(0)


class Pool:
    """a process per job"""

    def __init__(self, n):
        self.n = n
        self.queue = []
        self.running = {}

    def add(self, job, front=False):
        self.queue.insert(0, job) if front else self.queue.append(job)

    def step(self):
        while self.queue and len(self.running) < self.n:
            job = self.queue.pop(0)
            a, b = mp.Pipe(duplex=False)
            p = mp.Process(target=worker, args=(job, b))
            p.start()
            b.close()
            self.running[a] = (p, job, time.time())
        if not self.running:
            return []
        ready = multiprocessing.connection.wait(list(self.running), timeout=1)
        out = []
        for c in ready:
            p, job, t = self.running.pop(c)
            try:
                r = c.recv()
            except EOFError:
                r = dead('the verifier process ended')
            p.join(5)
            if p.is_alive():
                p.kill()
            out.append((job, r))
        for c, (p, job, t) in list(self.running.items()):
            if time.time() - t > job.budget * 1.5 + 20:
                p.kill()
                p.join()
                del self.running[c]
                out.append((job, dead('time limit')))
        return out

    def busy(self):
        return self.queue or self.running

    def stop(self):
        for c, (p, job, t) in self.running.items():
            p.kill()
            p.join()
        self.running = {}
        self.queue = []


def dead(why):
    return {'status': 'FAILED', 'error': why, 'failed': [], 'proved': [], 'time': 0, 'paths': 0, 'queries': 0, 'solver_s': 0,
            'used_contracts': set(), 'used_opaque': set(), 'used_rewrites': set(), 'used_models': set(), 'used_funcs': set(), 'hints': []}


TAG = re.compile(r'^(C\d\d): ')


def mine(prop, name):
    if name == 'no panic' and prop in PANIC_OK:
        return False
    m = TAG.match(name)
    return m is None or m.group(1) == prop


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.results = {}
        self.bad_contracts = set()
        self.log = []
        self.search = None
        self.history = []
        self.early = None
        self.early_hit = None

    def left(self, total=720):
        return total - (time.time() - self.t0)

    def lemma_jobs(self, level=0, budget=120):
        jobs = []
        for pkg, short in PROPS[self.prop]:
            n = MOD + pkg + '.' + short
            if n not in PROG['funcs']:
                self.missing.append(n)
                continue
            k = proofs.ncases(PROG, n)
            if k:
                jobs += [Job('lemma', n, c, level, budget=budget) for c in range(k)]
            else:
                jobs.append(Job('lemma', n, None, level, budget=budget))
        return jobs

    def failed(self, job, r):
        """obligations of this property that a result leaves open"""
        out = []
        if r['error']:
            out.append(('the verifier could not process the code', r['error']))
        for a, b in r['failed']:
            if job.kind != 'lemma' or mine(self.prop, a):
                out.append((a, b))
        if not out and r['status'] != 'proved' and not r['failed']:
            out.append(('no obligation was generated', ''))
        return out

    def drive(self, jobs, limit):
        """run jobs and, as they are used, the contracts and postconditions they rely on"""
        pool = Pool(NPROC)
        for j in jobs:
            pool.add(j)
        want = set(j.key() for j in jobs)
        con = proofs.contracts_of(PROG)
        t1 = time.time()
        while pool.busy():
            if time.time() - t1 > limit:
                for c, (p, job, t) in pool.running.items():
                    self.results[job.key()] = (job, dead('time limit'))
                for job in pool.queue:
                    self.results[job.key()] = (job, dead('time limit'))
                pool.stop()
                break
            if self.poll_early():
                pool.stop()
                return
            for job, r in pool.step():
                self.results[job.key()] = (job, r)
                self.history.append((job, r))
                if self.early is None and self.failed(job, r) and r['error'] != 'time limit':
                    self.start_early(job, r)
                if job.kind == 'contract' and r['status'] != 'proved':
                    self.bad_contracts.add(job.name)
                    # whatever relied on it is decided again without it
                    for k, (j2, r2) in list(self.results.items()):
                        if job.name in r2['used_contracts']:
                            n = Job(j2.kind, j2.name, j2.case, j2.level, frozenset(self.bad_contracts), j2.budget)
                            del self.results[k]
                            pool.add(n)
                stale = r['used_contracts'] & self.bad_contracts
                if stale and job.kind not in ('ens', 'rule') and job.key() in self.results and not stale <= job.exclude:
                    del self.results[job.key()]
                    pool.add(Job(job.kind, job.name, job.case, job.level, frozenset(self.bad_contracts), job.budget))
                for c in r['used_contracts']:
                    k = ('contract', c, None)
                    if k not in want and c in con:
                        want.add(k)
                        pool.add(Job('contract', c, exclude=frozenset(self.bad_contracts)))
                for o in r['used_opaque']:
                    k = ('ens', o, None)
                    if k not in want and o + '_ens' in PROG['funcs']:
                        want.add(k)
                        pool.add(Job('ens', o))
                for o in r['used_rewrites']:
                    k = ('rule', o, None)
                    if k not in want:
                        want.add(k)
                        pool.add(Job('rule', o), front=True)

    def start_early(self, job, r):
        """look for a failing input while the rest is being proved"""
        lem = [job.name] if job.kind == 'lemma' else []
        hints = [{'Lemma': job.name.rsplit('.', 1)[-1], 'Args': h} for h in r['hints']]
        a, b = mp.Pipe(duplex=False)

        def go():
            try:
                b.send(self.search_all(lem, hints, 25, os.path.join(self.tmp, 'early')))
            except BaseException:
                pass
            os._exit(0)
        p = mp.Process(target=go)
        p.start()
        b.close()
        self.early = (p, a)

    def poll_early(self, wait=False):
        """the failing input found by the search that runs beside the proofs"""
        if self.early and self.early is not True:
            p, a = self.early
            if wait or a.poll():
                try:
                    self.early_hit = a.recv()
                except EOFError:
                    pass
                p.join(5)
                self.early = True
        return self.early_hit

    def unreached(self, job, r):
        """the reflection of the changed code is beyond the verifier: a bounded run of the lemma stands in"""
        return (self.prop in STANDIN and job.kind == 'lemma' and job.name == MOD + STANDIN[self.prop][1] and not r['failed']
                and str(r['error'] or '').startswith('unsupported'))

    def open_obligations(self):
        out = []
        for k, (job, r) in sorted(self.results.items(), key=lambda x: str(x[0])):
            if job.kind == 'contract':
                continue        # only a lemma for the others
            if self.unreached(job, r):
                continue
            for a, b in self.failed(job, r):
                out.append((job, a, b))
        # a rule may rest on others, never on itself
        deps = {j.name: r['used_rewrites'] for j, r in self.results.values() if j.kind == 'rule'}
        while deps:
            done = [n for n in deps if not deps[n] & set(deps)]
            if not done:
                out.append((None, 'rules rest on each other', ', '.join(deps)))
                break
            for n in done:
                del deps[n]
        return out

    def run(self):
        global PROG
        self.missing = []
        self.tmp = tempfile.mkdtemp(prefix='verif-')
        try:
            return self.run1()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def run1(self):
        global PROG
        try:
            PROG = dump(self.tmp)
        except RepoError as x:
            return self.report_violation('the code does not build with the contracts', str(x), None)
        e = machine.Engine(PROG)
        self.init_notes = e.run_init()
        self.drive(self.lemma_jobs(budget=BUDGET.get(self.prop, 150)), min(330, self.left()))
        hit = self.poll_early(True)
        opens = self.open_obligations()
        if hit:
            opens = opens or [(j, a, b) for j, r in self.results.values() for a, b in self.failed(j, r)] or [(None, hit['Found']['Failure'], '')]
            return self.report_violation_input(opens, hit)
        if self.missing:
            opens.append((None, 'missing lemma', ', '.join(self.missing) + ' dropped: ' + str(PROG.get('dropped'))[:1500]))
        if not opens:
            if self.tier == 'thorough':
                hit = self.find([], 60)
                if hit:
                    return self.report_violation_input([(None, hit['Found']['Failure'], 'found by running the lemma on the real code')], hit)
            elif self.prop in STANDIN:
                fn, name, lem = STANDIN[self.prop]
                out = any(self.unreached(j, r) for j, r in self.results.values())
                hit = self.run_lemmas(lem, [], 30 if out else 6, self.tmp)
                self.bounded = {'stands_in_for' if out else 'beside_the_proof_of': fn, 'level': 'bounded: random inputs, not counted as proved'}
                self.bounded.update({k: v for k, v in (self.search or {}).items() if k in ('Runs', 'Distinct')})
                if hit:
                    return self.report_violation_input([(None, hit['Found']['Failure'], 'found by running the lemma on the real code')], hit)
            return self.report_ok()
        hit = self.find(opens, 45)
        if hit:
            return self.report_violation_input(opens, hit)
        # decide the open obligations again from the code alone, without contracts
        for level, budget in ((1, 150), (2, 150)):
            todo = [j for j, a, b in opens if j is not None and j.kind == 'lemma']
            todo = {j.key(): j for j in todo}
            if not todo or self.left() < 150:
                break
            saved = dict(self.results)
            self.drive([Job('lemma', j.name, j.case, level, budget=budget) for j in todo.values()], min(200, self.left() - 100))
            for k in todo:
                # keep the more informative result if the retry failed too
                if self.results[k][1]['status'] != 'proved' and k in saved:
                    self.results[k] = saved[k]
            opens = self.open_obligations()
            if self.missing:
                opens.append((None, 'missing lemma', ', '.join(self.missing)))
            if not opens:
                return self.report_ok()
        hit = self.find(opens, min(150, max(20, self.left() - 30)))
        if hit:
            return self.report_violation_input(opens, hit)
        j, a, b = opens[0]
        return self.report_violation(a, '\n'.join('%s: %s: %s' % (j, a, b) for j, a, b in opens)[:20000], None)

    # ---- counterexamples
    def find(self, opens, seconds):
        hints = []
        for k, (job, r) in self.results.items():
            for h in r['hints']:
                hints.append({'Lemma': job.name.rsplit('.', 1)[-1], 'Args': h})
        names = {j.name for j, a, b in opens if j is not None and j.kind == 'lemma'}
        return self.search_all(names, hints, seconds, self.tmp)

    def search_all(self, names, hints, seconds, tmp):
        lem = sorted({(p, s) for p, s in PROPS[self.prop]})
        if names:
            lem = [(p, s) for p, s in lem if MOD + p + '.' + s in names] or lem
        return self.run_lemmas(lem + EXTRA.get(self.prop, []), hints, seconds, tmp)

    def run_lemmas(self, lem, hints, seconds, tmp):
        pkgs = sorted({p for p, s in lem})
        for pkg in pkgs:
            try:
                rep = witness.search(PROG, VERIF, REPO, pkg, [s for p, s in lem if p == pkg], self.prop, self.seed, max(5, seconds / len(pkgs)), hints, tmp, go_bin(), go_env(), panic_ok=self.prop in PANIC_OK)
            except Exception as x:
                self.log.append('search: %s' % x)
                continue
            self.search = rep
            if rep.get('Found'):
                rep['pkg'] = pkg
                return rep
        return None

    def replay_path(self):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, '%s.json' % self.prop)

    def report_violation_input(self, opens, rep):
        f = rep['Found']
        path = self.replay_path()
        json.dump({'property': self.prop, 'package': rep['pkg'], 'lemma': f['Lemma'], 'config': rep['config'], 'seed': f['Seed'],
                   'failure': f['Failure'], 'arguments': f['Args'], 'stack': f.get('Stack', ''),
                   'failed_obligations': [{'job': str(j), 'obligation': a, 'detail': b[:2000]} for j, a, b in opens[:20]],
                   'how_to_replay': 'python3-vt %s replay %s' % (os.path.abspath(__file__), path)}, open(path, 'w'), indent=1)
        print('failed obligation: %s' % opens[0][1])
        print('failing input: %s(%s)' % (f['Lemma'], ', '.join(f['Args'] or [])[:1500]))
        print(f['Failure'][:1500])
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        self.evidence(1, opens)
        return 1

    def report_violation(self, name, detail, rep):
        path = self.replay_path()
        json.dump({'property': self.prop, 'failed_obligation': name, 'verifier_output': detail,
                   'search_log': self.log[:5], 'searched': {k: v for k, v in (self.search or {}).items() if k in ('Runs', 'Distinct')},
                   'note': 'no failing input was found'}, open(path, 'w'), indent=1)
        print('failed obligation: %s' % name)
        print(detail[:3000])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.prop, path))
        self.evidence(1, [(None, name, detail)])
        return 1

    def report_ok(self):
        for line in self.known():
            print(line)
        self.evidence(0, [])
        n = sum(len(r['proved']) for j, r in self.results.values())
        print('property %s: %d obligations discharged in %.0f s' % (self.prop, n, time.time() - self.t0))
        return 0

    def known(self):
        out = []
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for line in open(p):
                if line.startswith('KNOWN-FINDING: property=%s ' % self.prop):
                    out.append(line.strip())
        return out

    def evidence(self, violations, opens):
        rs = list(self.results.values())
        lem = [(j, r) for j, r in rs if j.kind == 'lemma']
        con = [(j, r) for j, r in rs if j.kind == 'contract']
        ens = [(j, r) for j, r in rs if j.kind == 'ens']
        rules = [(j, r) for j, r in rs if j.kind == 'rule']
        disch = sum(len([1 for a, b in r['proved'] if mine(self.prop, a)]) for j, r in rs)
        models = set()
        funcs = set()
        for j, r in rs:
            models |= r['used_models']
            funcs |= r['used_funcs']

        def short(n):
            return n.replace(MOD, '')
        real = sorted(short(f) for f in funcs if not f.rsplit('.', 1)[-1].startswith('z'))
        trusted = ['verif/engine: symbolic semantics of Go SSA and loop summaries (own tool)', 'golang.org/x/tools/go/ssa', 'Z3 5.3.2 (python bindings)']
        trusted += ['assumed contract of ' + m for m in sorted(models)]
        cov = {
            'obligations': disch + len(opens),
            'discharged': disch,
            'checker_cmd': 'python3-vt engine/check.py %s %s' % (self.prop, self.tier),
            'trusted_base': trusted,
            'functions_verified_from_source': real,
            'functions_under_contract': sorted(short(j.name) for j, r in con if r['status'] == 'proved'),
            'contracts_not_proved_and_inlined': sorted(short(j.name) for j, r in con if r['status'] != 'proved'),
            'lemmas': sorted('%s%s: %s, %d obligations, %.1f s' % (short(j.name), '' if j.case is None else '[case %d]' % j.case, r['status'], len(r['proved']), r['time']) for j, r in lem),
            'contract_proofs': sorted('%s: %s, %d obligations, %.1f s' % (short(j.name), r['status'], len(r['proved']), r['time']) for j, r in con),
            'specification_postconditions': sorted('%s: %s' % (short(j.name), r['status']) for j, r in ens),
            'specification_rules': sorted('%s: %s, %d obligations, %.1f s' % (short(j.name), r['status'], len(r['proved']), r['time']) for j, r in rules),
            'backend': 'Z3 (linear integer arithmetic, bit-vectors, uninterpreted functions; no quantifiers in queries)',
            'solver_queries': sum(r['queries'] for j, r in rs),
            'solver_s': round(sum(r['solver_s'] for j, r in rs), 1),
            'paths': sum(r['paths'] for j, r in rs),
            'open_obligations': [a for j, a, b in opens][:20],
        }
        if self.search:
            cov['counterexample_search'] = {'runs': self.search.get('Runs'), 'distinct': self.search.get('Distinct')}
        if getattr(self, 'bounded', None):
            cov['bounded_run'] = self.bounded
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'proof', 'coverage': cov,
              'assumptions': ASSUMPTIONS + ['assumed contract of ' + m for m in sorted(models)],
              'wall_s': round(time.time() - self.t0, 1), 'violations': violations}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + '.json'), 'w'), indent=1)


class TreeCheck(Check):
    """properties of the tree: lock contracts (C16), contracts over the node heap (C13, C14, C15)"""

    def run1(self):
        global PROG
        try:
            PROG = dump(self.tmp)
        except RepoError as x:
            return self.report_violation('the code does not build with the contracts', str(x), None)
        return self.locks() if self.prop == 'C16' else self.tree()

    def harness(self, seconds, depth=5, race=False, replay=None):
        try:
            return witness.tree_search(PROG, VERIF, REPO, self.prop, self.seed, seconds, self.tmp, go_bin(), go_env(), depth, race, replay)
        except Exception as x:
            self.log.append('harness: %s' % x)
            return {'Found': False, 'error': str(x)}

    def locks(self):
        import locks
        self.cov = {}
        opens = []
        a = locks.Locks(PROG, MOD + 'oid', 'Tree')
        try:
            a.run()
        except locks.Bad as x:
            opens.append((None, 'the verifier could not process the code', str(x)))
        except Exception:
            opens.append((None, 'the verifier could not process the code', traceback.format_exc()))
        for (op, name), detail in sorted(a.errors.items()):
            opens.append((None, '%s: %s' % (op, name), detail))
        if not opens and not a.proved:
            opens.append((None, 'no obligation was generated', ''))
        ok = [k for k in a.proved if k not in a.errors]
        n = {'lock': 0, 'access': 0, 'exit': 0}
        for op, name in ok:
            n['lock' if ' of the lock in ' in name else 'exit' if name.startswith('no lock') else 'access'] += 1
        self.cov = {'obligations': len(ok) + len(opens), 'discharged': len(ok), 'checker_cmd': 'python3-vt engine/check.py C16 ' + self.tier,
                    'operations_under_contract': [a.sh(o) for o in getattr(a, 'ops', [])], 'functions_verified_from_source': sorted(a.sh(f) for f in a.used),
                    'lock': getattr(a, 'lock', None), 'obligations_by_kind': n,
                    'backend': 'own fixed-point verifier over Go SSA (finite ghost state: mode of each lock), no solver', 'solver_s': 0,
                    'trusted_base': ['verif/engine/locks.py (own tool)', 'golang.org/x/tools/go/ssa', 'sync.RWMutex: Lock/Unlock exclusive, RLock/RUnlock shared'] + ['assumed contract of ' + m for m in sorted(a.models)]}
        self.assume = ['an operation works on one tree', 'node operations on a well-formed tree raise no run-time panic of their own (proved under C13, C14, C15); panics considered: visitors and explicit panics',
                       'a visitor does not use the tree; external functions do not keep node memory', 'the race freedom of programs whose conflicting accesses are ordered by the lock (Go memory model)']
        if not opens and self.tier != 'thorough':
            return self.report_ok()
        rep = self.harness(5 if opens else 60, race=True)
        self.cov['concrete_schedules'] = {k: rep.get(k) for k in ('Calls', 'Notes', 'error') if rep.get(k)}
        if rep['Found']:
            return self.report_history(opens or [(None, rep['Failure'], '')], rep)
        if opens:
            return self.report_violation(opens[0][1], '\n'.join('%s: %s' % (x, y) for j, x, y in opens)[:20000], None)
        return self.report_ok()

    def tree(self):
        import treespec
        quick = self.tier != 'thorough'
        opens = []
        reps = []
        try:
            reps = treespec.run(PROG, self.prop, 150 if quick else 400)
        except Exception:
            opens.append((None, 'the verifier could not process the code', traceback.format_exc()))
        sh = lambda n: 'lemmas' if n is None else n.replace(MOD, '')
        for r in reps:
            if r['err']:
                opens.append((None, r['err'] if sh(r['name']) in r['err'] else '%s: %s' % (sh(r['name']), r['err']), r['err']))
        n = sum(len(r['proved']) for r in reps if not r['err'])
        if not opens and not n:
            opens.append((None, 'no obligation was generated', ''))
        inl = set().union(*[r['inlined'] for r in reps]) if reps else set()
        models = set().union(*[r['models'] for r in reps]) if reps else set()
        self.cov = {'obligations': n + len(opens), 'discharged': n, 'checker_cmd': 'python3-vt engine/check.py %s %s' % (self.prop, self.tier),
                    'functions_under_contract': sorted(sh(r['name']) for r in reps if r['name'] and not r['err']),
                    'contract_proofs': sorted('%s: %s, %d obligations, %.1f s' % (sh(r['name']), 'proved' if not r['err'] else 'open', len(r['proved']), r['time']) for r in reps),
                    'inlined': sorted(sh(x) for x in inl), 'backend': 'Z3 (linear integer arithmetic, uninterpreted functions, quantifiers by E-matching only)',
                    'solver_queries': sum(r['queries'] for r in reps), 'solver_s': round(sum(r['solver_s'] for r in reps), 1),
                    'trusted_base': ['verif/engine/heap.py, treespec.py: symbolic semantics of Go SSA over the node heap (own tool)', 'golang.org/x/tools/go/ssa', 'Z3 (python bindings)'] + ['assumed contract of ' + m for m in sorted(models)]}
        self.assume = ['int is treated as a mathematical integer; memory allocation succeeds',
                       'an operation runs alone on its tree (C16); users do not change Subid, Parent or Children of nodes, and a visitor does not use the tree',
                       'the position of a sub-identifier in a sorted list and the common prefix of a path and an identifier exist (definitions)',
                       'the operations are called on one tree'] + ['assumed contract of ' + m for m in sorted(models)]
        if self.prop != 'C13':
            self.assume.append('the tree is well-formed, which the operations that build it keep (proved under C13)')
        rep = self.harness((12 if not opens else 40) if quick else 240, 5 if quick else 6)
        bad = [r for r in reps if r['err']]
        if opens and not rep['Found'] and bad and all(r['name'] in PROG['funcs'] or r['name'] is None for r in bad) and not [1 for r in bad if r['err'] == 'the operation is gone']:
            # once more what is open, with other settings of the solver and more time
            again = {r['name']: r for r in treespec.run(PROG, self.prop, 200 if quick else 500, 4, 5, [r['name'] for r in bad])}
            if not [1 for r in again.values() if r['err'] or r['used'] - {x['name'] for x in reps}]:
                reps = [again.get(r['name'], r) for r in reps]
                opens = []
                n = sum(len(r['proved']) for r in reps)
                self.cov.update({'obligations': n, 'discharged': n, 'proved_at_the_second_attempt': sorted(sh(x) for x in again),
                                 'functions_under_contract': sorted(sh(r['name']) for r in reps if r['name'])})
        what = {'C13': 'every history of additions, removals and clearings over 7 identifiers (2 sub-identifiers, depth 2) up to length 5 (length 4 for three other pairs of sub-identifiers), every insertion order of 6 children; then random histories of up to 60 operations',
                'C14': 'every tree over 2 sub-identifiers of depth 3 and over 3 sub-identifiers of depth 2 (several value sets), every pair of bounds up to one level deeper and include setting; then random trees and bounds',
                'C15': 'every tree over 2 sub-identifiers of depth 3 and over 3 sub-identifiers of depth 2 (several value sets); then random trees'}[self.prop]
        self.cov['concrete_cross_check'] = {'trees': rep.get('Trees'), 'histories': rep.get('Histories'), 'calls': rep.get('Calls'), 'notes': rep.get('Notes'), 'error': rep.get('error'),
                                            'what': 'within the time limit: ' + what}
        if rep['Found']:
            return self.report_history(opens or [(None, rep['Failure'], '')], rep)
        if opens:
            return self.report_violation(opens[0][1], '\n'.join('%s: %s' % (x, y) for j, x, y in opens)[:20000], None)
        return self.report_ok()

    def report_history(self, opens, rep):
        path = self.replay_path()
        json.dump({'property': self.prop, 'tree': True, 'failure': rep['Failure'], 'history': rep.get('History'), 'operations': rep.get('Text'), 'seed': self.seed,
                   'failed_obligations': [{'obligation': a, 'detail': b[:2000]} for j, a, b in opens[:20]],
                   'how_to_replay': 'python3-vt %s replay %s' % (os.path.abspath(__file__), path)}, open(path, 'w'), indent=1)
        print('failed obligation: %s' % opens[0][1][:1500])
        if rep.get('Text'):
            print('history: %s' % '; '.join(rep['Text'])[:1500])
        print(rep['Failure'][:1500])
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        self.evidence(1, opens)
        return 1

    def report_ok(self):
        for line in self.known():
            print(line)
        self.evidence(0, [])
        print('property %s: %s in %.0f s' % (self.prop, '%d obligations discharged' % self.cov['discharged'] if 'discharged' in self.cov else 'held within the bound', time.time() - self.t0))
        return 0

    def evidence(self, violations, opens):
        cov = dict(getattr(self, 'cov', {}) or {'note': 'not run'})
        if opens:
            cov['open_obligations'] = [a for j, a, b in opens][:20]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'proof', 'coverage': cov,
              'assumptions': getattr(self, 'assume', []), 'wall_s': round(time.time() - self.t0, 1), 'violations': violations}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + '.json'), 'w'), indent=1)


ASSUMPTIONS = [
    'int is treated as a mathematical integer (no overflow of lengths, offsets and sizes); fixed-width integers are exact bit-vectors',
    'memory allocation succeeds; no data race or concurrent modification of arguments during a call',
    'package-level tables are not modified after initialisation (stores to them are reported as unsupported)',
    'the compiler and runtime implement the Go specification; go/ssa translates the source faithfully',
]


def replay(path):
    rp = json.load(open(path))
    if rp.get('tree'):
        tmp = tempfile.mkdtemp(prefix='verif-')
        try:
            rep = witness.tree_search(None, VERIF, REPO, rp['property'], rp['seed'], 5, tmp, go_bin(), go_env(), race=rp['property'] == 'C16', replay=rp['history'])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if rep['Found']:
            print('%s\n%s' % ('; '.join(rep.get('Text') or []), rep['Failure']))
            print('VIOLATION property=%s replay=%s' % (rp['property'], path))
            return 1
        print('the recorded history does not fail any more')
        return 0
    if 'lemma' not in rp:
        print('the violation was recorded without a failing input: %s' % rp.get('failed_obligation'))
        return 1
    global PROG
    if not rp['seed']:
        print('%s\n%s' % (rp['lemma'], rp['failure']))
        return 1
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        PROG = dump(tmp)
        cfg = rp['config']
        rep = witness.search(PROG, VERIF, REPO, rp['package'], [rp['lemma']], rp['property'], cfg['Seed'], 30, cfg['Hints'], tmp, go_bin(), go_env(), replay=rp['seed'], cfg0=cfg)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    f = rep.get('Found')
    if f:
        print('%s(%s)\n%s' % (f['Lemma'], ', '.join(f['Args'] or []), f['Failure']))
        print('VIOLATION property=%s replay=%s' % (rp['property'], path))
        return 1
    print('the recorded input does not fail any more')
    return 0


def main():
    if sys.argv[1] == 'constants':
        # the constants of the current tree, as a reference for the choice of inputs
        tmp = tempfile.mkdtemp(prefix='verif-')
        json.dump(witness.constants(dump(tmp)), open(witness.BASE, 'w'), indent=0, sort_keys=True)
        shutil.rmtree(tmp, ignore_errors=True)
        return
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = (TreeCheck if prop in TREE else Check)(prop, tier, seed)
    try:
        rc = c.run()
    except Exception:
        # an error of the machinery must not pass for a proof
        traceback.print_exc()
        rc = c.report_violation('internal error of the check', traceback.format_exc(), None)
    sys.exit(rc)


if __name__ == '__main__':
    main()
