"""Contract verifier for the OID tree: symbolic execution of the Go SSA of the real functions over an
explicit heap. Every function is verified on its own, against the contracts of the functions it calls;
loops are cut by the invariants of treespec.py, whose variables are matched to the loop's variables by
search. Obligations are discharged by Z3 (E-matching only, no model-based instantiation)."""
import itertools
import time
import z3

N = z3.DeclareSort('Node')
O = z3.DeclareSort('Obj')
I = z3.IntSort()
B = z3.BoolSort()
NIL = z3.Const('nil', N)
NILO = z3.Const('nilo', O)
MOD = 'github.com/alexispb/mygosnmp/'
P = MOD + 'oid.'

# maps of the heap and ghost maps
MAPS = {
    'alloc': ((N,), B), 'allocO': ((O,), B),
    'subid': ((N,), I), 'parent': ((N,), N),
    'cb': ((N,), O), 'co': ((N,), I), 'cl': ((N,), I), 'cc': ((N,), I),
    'mem': ((O, I), N), 'memU': ((O, I), I),
    # ghost
    'alive': ((N,), B), 'idx': ((N,), I), 'depth': ((N,), I), 'anc': ((N, I), N), 'owner': ((O,), N),
    'visited': ((N,), B), 'kept': ((O,), B), 'maxd': ((), I),
}
HEAP = ('subid', 'parent', 'cb', 'co', 'cl', 'cc', 'mem')
GHOST = ('alive', 'idx', 'depth', 'anc', 'owner', 'maxd')
MASK = (1 << 32) - 1


class Unsupported(Exception):
    pass


class Failed(Exception):
    pass


class Choose(Exception):
    def __init__(self, key, cands):
        self.key, self.cands = key, cands


_n = itertools.count()


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_n)), sort)


class State:
    def __init__(self):
        self.m = {}
        self.g = {}         # scalars: root, maxd
        self.cells = {}
        self.hyps = []
        self.defs = set()   # definitions already among the hypotheses

    def clone(self):
        s = State.__new__(State)
        s.m, s.g, s.cells, s.hyps, s.defs = dict(self.m), dict(self.g), dict(self.cells), list(self.hyps), set(self.defs)
        return s

    def __getattr__(self, k):
        if k == 'maxd':
            return self.m[k]()
        if k in MAPS:
            return self.m[k]
        if k == 'root':
            return self.g[k]
        raise AttributeError(k)

    def havoc(self, name):
        d, r = MAPS[name]
        self.m[name] = z3.Function('%s!%d' % (name, next(_n)), *d, r)

    def define(self, name, body):
        """new version of a map: f'(x) = body(x)"""
        d, r = MAPS[name]
        self.havoc(name)
        f = self.m[name]
        xs = [fresh('x', s) for s in d]
        self.hyps.append(z3.ForAll(xs, f(*xs) == body(*xs), patterns=[f(*xs)]))

    def put(self, name, keys, val):
        old = self.m[name]
        self.define(name, lambda *xs: z3.If(z3.And([x == k for x, k in zip(xs, keys)]), val, old(*xs)))
        # the point itself, so that it need not be found by matching
        self.hyps.append(self.m[name](*keys) == val)

    def assume(self, *fs):
        for f in fs:
            if f is True:
                continue
            self.hyps.append(f if z3.is_expr(f) else z3.BoolVal(f))


def initial():
    s = State()
    for k in MAPS:
        s.havoc(k)
    s.g['root'] = fresh('root', N)
    return s


class Sl:
    """slice"""

    def __init__(self, kind, obj, off, ln, cap):
        self.kind, self.obj, self.off, self.ln, self.cap = kind, obj, off, ln, cap

    def mem(self, S):
        return S.mem if self.kind == 'N' else S.memU

    def at(self, S, i):
        return self.mem(S)(self.obj, simp(self.off + i))

    def __eq__(self, o):
        return isinstance(o, Sl) and self.kind == o.kind and all(same(a, b) for a, b in zip(self.parts(), o.parts()))

    __hash__ = None

    def parts(self):
        return (self.obj, self.off, self.ln, self.cap)


class FieldP:
    def __init__(self, node, f):
        self.node, self.f = node, f


class ElemP:
    def __init__(self, kind, obj, i):
        self.kind, self.obj, self.i = kind, obj, i


class ArrP:
    def __init__(self, kind, obj, n):
        self.kind, self.obj, self.n = kind, obj, n


class Cell:
    def __init__(self, c, t):
        self.c, self.t = c, t


class TreeP:
    pass


class RootP:
    pass


class LockP:
    pass


class Clo:
    def __init__(self, fn, b):
        self.fn, self.b = fn, b


class Fn:
    def __init__(self, fn):
        self.fn = fn


class Tup:
    def __init__(self, f):
        self.f = f


class Other:
    """a value without influence on the tree"""


class Visitor(Other):
    """the visitor the caller hands in"""


VISITOR = 'func([]uint32, *%sNode)' % P
VISIT = Visitor()


def z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def simp(x):
    if not z3.is_expr(x):
        return x
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def same(a, b):
    a, b = z(a), z(b)
    return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)


def And(*xs):
    return z3.And([z(x) for x in xs])


class Verifier:
    def __init__(self, prog, contracts, seconds=60, log=None, timeout=20000):
        self.funcs = prog['funcs']
        self.contracts = contracts
        self.deadline = time.time() + seconds
        self.log = log
        self.timeout = timeout
        self.seed = 0
        self.retry = False
        self.proved = []
        self.queries = 0
        self.solver_s = 0
        self.used = set()
        self.inlined = set()
        self.models = set()
        self.dry = False

    # ---- solver
    def solver(self, S, ms, seed=0):
        s = z3.Solver()
        if seed:
            s.set('smt.random_seed', seed)
            s.set('smt.phase_selection', seed % 6)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.set('timeout', ms)
        for h in S.hyps:
            s.add(h)
        return s

    def check(self, S, f, ms, seed=0):
        if time.time() > self.deadline:
            raise Failed('time budget')
        s = self.solver(S, ms, seed or self.seed)
        s.add(f)
        t = time.time()
        r = s.check()
        self.reason = s.reason_unknown() if r == z3.unknown else ''
        self.queries += 1
        self.solver_s += time.time() - t
        return r

    def prove(self, S, name, goal, quiet=False, ms=None):
        goal = simp(goal)
        if goal is True:
            return True
        if quiet:
            r = self.check(S, z3.Not(z(goal)), ms or self.timeout)
        else:
            # restarts with other orders of search: the time a proof takes varies a lot
            for k, seed in ((8, 0), (4, 11), (2, 23), (1, 37)):
                r = self.check(S, z3.Not(z(goal)), (ms or self.timeout) // k, seed + self.seed)
                if r != z3.unknown or not self.retry and 'incomplete' in self.reason:
                    break
        ok = r == z3.unsat
        if not quiet:
            if ok:
                self.proved.append(name)
            if self.log:
                self.log('%s %s' % ('ok  ' if ok else 'FAIL', name))
        return ok

    def maybe(self, S, goal):
        """a quick look whether the goal holds"""
        goal = simp(goal)
        if goal is True:
            return True
        r = self.check(S, z3.Not(z(goal)), 1500)
        return r == z3.unsat or r == z3.unknown and 'incomplete' not in self.reason

    def oblige(self, S, name, goal):
        if self.dry:
            S.assume(goal)
            return
        if not self.prove(S, name, goal):
            raise Failed('%s' % name)
        S.assume(goal)

    def feasible(self, S, c):
        c = simp(c)
        if isinstance(c, bool):
            return c
        return self.check(S, c, 400) != z3.unsat

    # ---- values
    def value(self, t, name, S):
        """symbolic value of a Go type"""
        if t in ('int', 'int16', 'int32', 'int64'):
            return fresh(name, I)
        if t == 'uint32':
            v = fresh(name, I)
            S.assume(v >= 0, v <= MASK)
            return v
        if t == 'bool':
            return fresh(name, B)
        if t == '*' + P + 'Node':
            return fresh(name, N)
        if t in ('[]uint32', '[]*' + P + 'Node'):
            s = Sl('U' if t == '[]uint32' else 'N', fresh(name + '.o', O), fresh(name + '.off', I), fresh(name + '.len', I), fresh(name + '.cap', I))
            S.assume(s.off >= 0, s.ln >= 0, s.cap >= s.ln, z3.Or(s.cap == 0, S.allocO(s.obj)))
            return s
        if t == '*' + P + 'Tree':
            return TreeP()
        return VISIT if t == VISITOR else Other()

    def kind_of(self, t):
        if t == 'uint32':
            return 'U'
        if t == '*' + P + 'Node':
            return 'N'
        return None

    def zero(self, t):
        if t in ('int', 'int16', 'uint32', 'int32', 'int64'):
            return 0
        if t == 'bool':
            return z3.BoolVal(False)
        if t == '*' + P + 'Node':
            return NIL
        if t == '[]uint32' or t == '[]*' + P + 'Node':
            return Sl('U' if t == '[]uint32' else 'N', NILO, 0, 0, 0)
        return Other()

    def val(self, env, x):
        if isinstance(x, str):
            if x[0] == '%':
                return env[x[1:]]
            if x.startswith('@f:'):
                return Fn(x[3:])
            if x.startswith('@b:'):
                return Fn(x)
            raise Unsupported('operand ' + x)
        if 'i' in x:
            return int(x['i'])
        if x.get('c', 0) is None:
            return self.zero(x['t'])
        if isinstance(x.get('c'), bool):
            return z3.BoolVal(x['c'])
        return Other()

    # ---- execution
    def outcomes(self, fname, args, S, bind=(), depth=0, top=None):
        """all ways through a function: [(state, [results])]"""
        f = self.funcs.get(fname)
        if f is None or not f.get('blocks'):
            raise Unsupported('external function ' + fname)
        if depth > 5:
            raise Unsupported('call depth')
        env = {}
        for p, a in zip(f['params'], args):
            env[p['n']] = a
        for p, a in zip(f.get('freevars') or [], bind):
            env[p['n'] if isinstance(p, dict) else p] = a
        heads = self.loops(f)
        out = []
        work = [(S, env, 0, 0, None, {})]
        while work:
            S, env, b, ip, pred, active = work.pop()
            if ip == 0:
                active = {h: x for h, x in active.items() if b in heads[h]}
                blk = f['blocks'][b]
                new = {}
                for ins in blk['i']:
                    if ins['op'] != 'Phi':
                        break
                    new[ins['n']] = self.val(env, ins['e'][blk['p'].index(pred)])
                env = dict(env)
                env.update(new)
                if b in heads:
                    r = self.loop(f, b, heads[b], S, env, active, top)
                    if r is None:
                        continue
                    S, env, active = r
                ip = len([1 for ins in blk['i'] if ins['op'] == 'Phi'])
            self.step(f, S, env, b, ip, active, work, out, depth, top)
        return out

    def loops(self, f):
        """loop headers -> blocks of the loop"""
        bl = f['blocks']
        state, back = {}, []
        stack = [(0, iter(bl[0].get('s') or []))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state.get(s) == 1:
                    back.append((b, s))
                elif s not in state:
                    state[s] = 1
                    stack.append((s, iter(bl[s].get('s') or [])))
                    break
            else:
                state[b] = 2
                stack.pop()
        heads = {}
        for b, h in back:
            body = heads.setdefault(h, {h})
            todo = [b]
            while todo:
                x = todo.pop()
                if x not in body:
                    body.add(x)
                    todo.extend(bl[x].get('p') or [])
        return heads

    def loop(self, f, h, body, S, env, active, top):
        """S, env at the header; None when the path ends here"""
        if top is None:
            raise Unsupported('loop in ' + f['name'])
        key = (f['name'], h)
        if h in active:
            # back edge
            info = active[h]
            if self.dry:
                for k in S.m:
                    if k not in info['H'] and not S.m[k].eq(info['S'].m[k]):
                        self.changed.add(k)
                for k in info['S'].cells:
                    a, b = info['S'].cells[k], S.cells[k]
                    if k not in info['C'] and not self.same_value(a, b):
                        self.changed.add(('cell', k))
                for k in S.g:
                    if not same(S.g[k], info['S'].g[k]):
                        raise Unsupported('loop changes ' + k)
                return None
            if info['frozen'] and any(not S.m[k].eq(info['S'].m[k]) for k in info['frozen']):
                # the first iteration that changes the heap: from here on the loop is in its second phase
                active = {x: y for x, y in active.items() if x != h}
                return self.enter(f, h, body, S, env, active, top, 2)
            for nm, g in self.inv(top, info['choice'], S, env):
                self.oblige(S, '%s: invariant of the loop at block %d: %s is kept' % (short(f['name']), h, nm), g)
            for n in [ins['n'] for ins in f['blocks'][h]['i'] if ins['op'] == 'Phi']:
                if info['env'][n] is VISIT and env[n] is not VISIT:
                    raise Failed('%s: the loop at block %d changes the visitor' % (short(f['name']), h))
            for c in info['C']:
                if info['S'].cells[c] is VISIT and S.cells[c] is not VISIT:
                    raise Failed('%s: the loop at block %d changes the visitor' % (short(f['name']), h))
            for n, c in info['pins'].items():
                self.oblige(S, '%s: invariant of the loop at block %d: a variable keeps its value' % (short(f['name']), h), z(env[n]) == c)
            for n, o in info['twins']:
                self.oblige(S, '%s: invariant of the loop at block %d: variables stay equal' % (short(f['name']), h), env[n] == env[o])
            m = info['choice'][0]['measure']
            old, new = self.roles(top, info['choice'], info['env']), self.roles(top, info['choice'], env)
            self.oblige(S, '%s: loop at block %d: progress' % (short(f['name']), h), m(new) > m(old) if callable(m) else new[m] > old[m])
            return None
        return self.enter(f, h, body, S, env, active, top, 1)

    def enter(self, f, h, body, S, env, active, top, phase):
        """a loop that changes the heap is verified with one invariant, or in two phases: the iterations
        before the first change, with one invariant and the heap as it was, and those after it"""
        key = (f['name'], h) if phase == 1 else (f['name'], h, phase)
        phis = [ins for ins in f['blocks'][h]['i'] if ins['op'] == 'Phi']
        # what the loop changes
        H, C = self.modified(f, h, S, env, active, top, phis, body)
        choice = self.plan.get(key)
        if choice is None and not self.dry:
            cands = []
            for sc in top.get('schemas') or []:
                grows = any(k in H for k in HEAP)
                if sc.get('grows', False) and not grows or phase == 2 and not sc.get('grows', False):
                    continue
                for roles in self.assignments(sc, phis, env):
                    ch = (sc, roles)
                    if all(self.maybe(S, g) for nm, g in self.inv(top, ch, S, env)):
                        cands.append(ch)
            cands.sort(key=lambda c: c[0].get('grows', False) != any(k in H for k in HEAP))
            if not cands:
                raise Failed('no invariant holds at the start of the loop at block %d of %s' % (h, short(f['name'])))
            raise Choose(key, cands)
        if not self.dry:
            for nm, g in self.inv(top, choice, S, env):
                self.oblige(S, '%s: invariant of the loop at block %d: %s holds at the start' % (short(f['name']), h, nm), g)
        S = S.clone()
        env0 = env
        env = dict(env)
        frozen, pins = (), {}
        if not self.dry and any(k in H for k in HEAP) and (phase == 2 or not choice[0].get('grows', False)):
            if phase == 1:
                frozen = sorted(H)
            for ins in phis:
                c = env0[ins['n']]
                c = z3.BoolVal(c) if isinstance(c, bool) else c
                if z3.is_expr(c) and (z3.is_true(c) or z3.is_false(c) or phase == 1 and c.eq(NIL)):
                    pins[ins['n']] = c
        for k in sorted(H):
            if k not in frozen:
                S.havoc(k)
        for k in sorted(C):
            S.cells[k] = self.havoc_value(S.cells[k], S)
        for ins in phis:
            env[ins['n']] = pins[ins['n']] if ins['n'] in pins else self.havoc_value(env[ins['n']], S)
        twins = []
        if phase == 2 and not self.dry:
            # node variables that are equal stay equal
            for ins in phis:
                for o in phis:
                    if o is ins:
                        break
                    x, y = env0[ins['n']], env0[o['n']]
                    if z3.is_expr(x) and x.sort() == N and z3.is_expr(y) and x.eq(y):
                        env[ins['n']] = env[o['n']]
                        twins.append((ins['n'], o['n']))
                        break
        if not self.dry:
            top['assuming'] = True
            for nm, g in self.inv(top, choice, S, env):
                S.assume(g)
            top['assuming'] = False
        S.assume(*self.counters(f, phis, env0, env))
        active = dict(active)
        active[h] = {'S': S.clone(), 'H': H, 'C': C, 'choice': choice, 'env': env, 'frozen': frozen, 'pins': pins, 'twins': twins}
        return S, env, active

    def counters(self, f, phis, env0, env):
        """a loop variable that only grows is at least its first value"""
        defs = {ins['n']: ins for b in f['blocks'] for ins in b['i'] if 'n' in ins}
        out = []
        for ins in phis:
            if ins['t'] != 'int':
                continue
            ok = False
            for e in ins['e']:
                d = defs.get(e[1:]) if isinstance(e, str) and e[0] == '%' else None
                if d and d['op'] == 'BinOp' and d['tok'] == '+' and d['x'] == '%' + ins['n'] and isinstance(d['y'], dict) and int(d['y'].get('i', -1)) >= 0:
                    ok = True
                elif d and d is not None and d['op'] in ('Phi', 'BinOp') and e != '%' + ins['n'] and self.mentions(defs, e, ins['n']):
                    ok = False
                    break
            if ok:
                out.append(z(env[ins['n']]) >= z(env0[ins['n']]))
        return out

    def mentions(self, defs, e, n, seen=None):
        seen = seen if seen is not None else set()
        if not isinstance(e, str) or e[0] != '%' or e in seen:
            return False
        if e[1:] == n:
            return True
        seen.add(e)
        d = defs.get(e[1:])
        if not d:
            return False
        if d['op'] == 'Phi':
            return any(self.mentions(defs, x, n, seen) for x in d['e'])
        if d['op'] == 'BinOp':
            return self.mentions(defs, d['x'], n, seen) or self.mentions(defs, d['y'], n, seen)
        return True

    def havoc_value(self, v, S):
        if isinstance(v, (bool, int)) or z3.is_expr(v):
            return fresh('h', z(v).sort())
        if isinstance(v, Sl):
            s = Sl(v.kind, fresh('h.o', O), fresh('h.off', I), fresh('h.len', I), fresh('h.cap', I))
            S.assume(s.off >= 0, s.ln >= 0, s.cap >= s.ln)
            return s
        if isinstance(v, Other):
            return v
        raise Unsupported('loop variable')

    def same_value(self, a, b):
        if isinstance(a, Sl):
            return a == b
        if z3.is_expr(a) or isinstance(a, (int, bool)):
            return (z3.is_expr(b) or isinstance(b, (int, bool))) and same(a, b)
        return a is b or isinstance(a, Clo) and isinstance(b, Clo) and a.fn == b.fn

    def modified(self, f, h, S, env, active, top, phis, body):
        key = (f['name'], h)
        if key in self.modcache:
            return self.modcache[key]
        H, C = set(), set()
        if self.dry:
            # inner loop of a dry run
            return set(k for k in MAPS), set(S.cells)
        for _ in range(8):
            S2, env2 = S.clone(), dict(env)
            for k in sorted(H):
                S2.havoc(k)
            for k in sorted(C):
                S2.cells[k] = self.havoc_value(S2.cells[k], S2)
            for ins in phis:
                env2[ins['n']] = self.havoc_value(env2[ins['n']], S2)
            act = dict(active)
            act[h] = {'S': S2.clone(), 'H': H, 'C': C, 'choice': None}
            self.dry, self.changed = True, set()
            try:
                work, out = [], []
                ip = len(phis)
                self.step(f, S2, env2, h, ip, act, work, out, 0, top)
                heads = self.loops(f)
                while work:
                    s, e, b, i, pred, ac = work.pop()
                    if b not in body:
                        continue
                    if i == 0:
                        ac = {x: y for x, y in ac.items() if b in heads[x]}
                        blk = f['blocks'][b]
                        e = dict(e)
                        e.update({ins['n']: self.val(e, ins['e'][blk['p'].index(pred)]) for ins in blk['i'] if ins['op'] == 'Phi'})
                        if b in heads:
                            r = self.loop(f, b, heads[b], s, e, ac, top)
                            if r is None:
                                continue
                            s, e, ac = r
                        i = len([1 for ins in blk['i'] if ins['op'] == 'Phi'])
                    self.step(f, s, e, b, i, ac, work, out, 0, top)
            finally:
                self.dry = False
            if not self.changed:
                break
            for k in sorted(self.changed, key=str):
                (C if isinstance(k, tuple) else H).add(k[1] if isinstance(k, tuple) else k)
        self.modcache[key] = (H, C)
        return H, C

    def roles(self, top, choice, env):
        return {r: self.role(top, choice, r, env) for r in choice[1]}

    def role(self, top, choice, r, env):
        base, add, other = choice[1][r]
        v = env[base]
        if add == 'cursor':
            # what is left of an argument: how much of it is consumed
            return z(simp(z(v.off) - z(self.cursor_of(top, v).off)))
        if add:
            v = simp(z(v) + add)
        if isinstance(other, tuple):
            # counted from the start of a rest of the argument
            w = env[other[1]]
            v = simp(z(v) + z(w.off) - z(self.cursor_of(top, w).off))
        elif other is not None:
            v = simp(z(v) + z(env[other]))
        return z(v)

    def cursor_of(self, top, v):
        for a in top['args']:
            if isinstance(a, Sl) and a.kind == v.kind:
                return a
        return None

    def inv(self, top, choice, S, env):
        out = []
        for r, (base, add, other) in choice[1].items():
            if add == 'cursor':
                v = env[base]
                a = self.cursor_of(top, v)
                out.append(('what is left of the argument', And(z3.Or(v.obj == a.obj, z(v.ln) == 0), z(v.off) >= z(a.off), z(v.off) + z(v.ln) == z(a.off) + z(a.ln))))
        return out + choice[0]['inv'](top, S, self.roles(top, choice, env))

    def assignments(self, sc, phis, env):
        cands = {}
        for r, t in sc['roles'].items():
            c = []
            for ins in phis:
                v = env[ins['n']]
                if t == 'node' and z3.is_expr(z(v)) and z(v).sort() == N:
                    c.append((ins['n'], 0, None))
                if t == 'int' and isinstance(v, Sl) and v.kind == 'U' and sc.get('cursor'):
                    c.append((ins['n'], 'cursor', None))
                if t == 'int' and ins['t'] == 'int':
                    for add in (0, 1):
                        c.append((ins['n'], add, None))
                    for o, w in env.items():
                        if isinstance(w, Sl) and w.kind == 'U' and sc.get('cursor') and z3.is_expr(w.off):
                            c.append((ins['n'], 0, ('off', o)))
                            c.append((ins['n'], 1, ('off', o)))
                        if o != ins['n'] and z3.is_expr(w) and w.sort() == I:
                            for add in (0, 1):
                                c.append((ins['n'], add, o))
            cands[r] = c
        names = list(cands)
        for combo in itertools.product(*[cands[n] for n in names]):
            yield dict(zip(names, combo))

    # ---- instructions
    def step(self, f, S, env, b, ip, active, work, out, depth, top):
        blk = f['blocks'][b]
        ins_list = blk['i']
        env = dict(env)
        S = S.clone()
        while ip < len(ins_list):
            ins = ins_list[ip]
            op = ins['op']
            where = '%s: %s' % (short(f['name']), ins.get('pos', 'block %d' % b))
            if op == 'Jump':
                work.append((S, env, blk['s'][0], 0, b, active))
                return
            if op == 'If':
                c = simp(self.val(env, ins['x']))
                for k, s in ((True, blk['s'][0]), (False, blk['s'][1])):
                    if isinstance(c, bool):
                        if c == k:
                            work.append((S.clone(), env, s, 0, b, active))
                        continue
                    cc = c if k else z3.Not(c)
                    if self.dry or self.feasible(S, cc):
                        T = S.clone()
                        T.assume(cc)
                        work.append((T, env, s, 0, b, active))
                return
            if op == 'Return':
                out.append((S, [self.val(env, r) for r in ins['r']]))
                return
            if op == 'Panic':
                if self.dry:
                    return
                raise Failed('%s: panic may be reached' % where)
            if op in ('RunDefers', 'DebugRef'):
                ip += 1
                continue
            if op == 'Defer':
                if not self.sync_call(ins):
                    raise Unsupported('defer')
                ip += 1
                continue
            if op == 'Call':
                res = self.call(f, S, env, ins, depth, top, where)
                if len(res) == 1:
                    S, v = res[0]
                    env[ins['n']] = v
                    ip += 1
                    continue
                for T, v in res:
                    e = dict(env)
                    e[ins['n']] = v
                    work.append((T, e, b, ip + 1, None, active))
                return
            if 'n' in ins:
                env[ins['n']] = self.pure(S, env, ins, where)
            elif op == 'Store':
                self.store(S, self.val(env, ins['a']), self.val(env, ins['v']), where)
            else:
                raise Unsupported(op)
            ip += 1
        raise Unsupported('block without end')

    def sync_call(self, ins):
        v = ins['call'].get('v', '')
        return isinstance(v, str) and v.startswith('@f:(*sync.')

    def nonnil(self, S, n, where):
        self.oblige(S, '%s: no nil dereference' % where, n != NIL)

    def pure(self, S, env, ins, where):
        op = ins['op']
        if op == 'Extract':
            return self.val(env, ins['x']).f[ins['i']]
        if op == 'Alloc':
            t = ins['elem']
            if t == P + 'Node':
                n = fresh('new', N)
                S.assume(n != NIL, z3.Not(S.alloc(n)))
                S.put('alloc', (n,), z3.BoolVal(True))
                S.put('subid', (n,), z3.IntVal(0))
                S.put('parent', (n,), NIL)
                for k in ('co', 'cl', 'cc'):
                    S.put(k, (n,), z3.IntVal(0))
                return n
            if t == P + 'Tree':
                return TreeP()
            if t.startswith('['):
                cnt, _, el = t[1:].partition(']')
                k = self.kind_of(el)
                if cnt and k:
                    o = self.newobj(S)
                    if k == 'U':
                        old = S.memU
                        S.define('memU', lambda x, i: z3.If(x == o, z3.IntVal(0), old(x, i)))
                    return ArrP(k, o, int(cnt))
            c = Cell(next(_n), t)
            S.cells[c.c] = self.zero(t)
            return c
        if op == 'FieldAddr':
            x = self.val(env, ins['x'])
            if isinstance(x, TreeP):
                return RootP() if '*' + P + 'Node' in ins['t'] else LockP()
            if not z3.is_expr(x) or x.sort() != N:
                raise Unsupported('field of ' + str(x))
            self.nonnil(S, x, where)
            return FieldP(x, ins['i'])
        if op == 'IndexAddr':
            x, i = self.val(env, ins['x']), self.val(env, ins['i'])
            if isinstance(x, ArrP):
                self.oblige(S, '%s: index in range' % where, And(z(i) >= 0, z(i) < x.n))
                return ElemP(x.kind, x.obj, i)
            self.oblige(S, '%s: index in range' % where, And(z(i) >= 0, z(i) < z(x.ln)))
            return ElemP(x.kind, x.obj, simp(z(x.off) + z(i)))
        if op == 'UnOp':
            x = self.val(env, ins['x'])
            if ins['tok'] == '!':
                return z3.Not(x)
            if ins['tok'] == '-':
                return simp(-z(x))
            if ins['tok'] == '*':
                return self.load(S, x, where)
        if op == 'BinOp':
            return self.binop(S, ins, self.val(env, ins['x']), self.val(env, ins['y']), where)
        if op == 'Slice':
            x = self.val(env, ins['x'])
            if ins.get('max') is not None:
                mx = self.val(env, ins['max'])
            else:
                mx = None
            if isinstance(x, ArrP):
                x = Sl(x.kind, x.obj, 0, x.n, x.n)
            if not isinstance(x, Sl):
                raise Unsupported('slice of ' + ins['t'])
            lo = self.val(env, ins['lo']) if ins.get('lo') is not None else 0
            hi = self.val(env, ins['hi']) if ins.get('hi') is not None else x.ln
            m = mx if mx is not None else x.cap
            self.oblige(S, '%s: slice bounds in range' % where, And(z(lo) >= 0, z(lo) <= z(hi), z(hi) <= z(m), z(m) <= z(x.cap)))
            return Sl(x.kind, x.obj, simp(z(x.off) + z(lo)), simp(z(hi) - z(lo)), simp(z(m) - z(lo)))
        if op == 'MakeSlice':
            k = 'U' if ins['t'] == '[]uint32' else 'N' if ins['t'] == '[]*' + P + 'Node' else None
            if k is None:
                raise Unsupported('make ' + ins['t'])
            n = self.val(env, ins['len'])
            c = self.val(env, ins['cap']) if ins.get('cap') is not None else n
            self.oblige(S, '%s: make with a size in range' % where, And(z(n) >= 0, z(n) <= z(c)))
            o = self.newobj(S)
            nm = 'mem' if k == 'N' else 'memU'
            old = S.m[nm]
            S.define(nm, lambda x, i: z3.If(x == o, NIL if k == 'N' else z3.IntVal(0), old(x, i)))
            return Sl(k, o, 0, n, c)
        if op == 'MakeClosure':
            fn = ins['fn']
            return Clo(fn[3:] if fn.startswith('@f:') else fn, [self.val(env, x) for x in ins['b']])
        if op == 'Convert':
            x = self.val(env, ins['x'])
            if ins['t'] in ('int', 'uint') and (isinstance(x, int) or z3.is_expr(x) and x.sort() == I):
                self.oblige(S, '%s: not negative' % where, z(x) >= 0)
                return x
            raise Unsupported('conversion to ' + ins['t'])
        if op in ('MakeInterface', 'ChangeType'):
            return self.val(env, ins['x']) if op == 'ChangeType' else Other()
        if op == 'Phi':
            raise Unsupported('phi')
        raise Unsupported(op)

    def newobj(self, S):
        o = fresh('obj', O)
        S.assume(z3.Not(S.allocO(o)), o != NILO)
        S.put('allocO', (o,), z3.BoolVal(True))
        return o

    def binop(self, S, ins, x, y, where):
        t = ins['tok']
        if isinstance(x, Sl) or isinstance(y, Sl):
            s = x if isinstance(x, Sl) and not (x.obj.eq(NILO) and same(x.cap, 0)) else y
            b = fresh('isnil', B)
            S.assume(z3.Implies(b, And(z(s.ln) == 0, z(s.cap) == 0)), z3.Implies(z(s.ln) > 0, z3.Not(b)))
            return b if t == '==' else z3.Not(b)
        if isinstance(x, Other) or isinstance(y, Other):
            if t in ('==', '!='):
                return fresh('cmp', B)
            return Other()
        x, y = z(x), z(y)
        if t in ('==', '!='):
            r = x == y
            return simp(r if t == '==' else z3.Not(r))
        if t in ('<', '<=', '>', '>='):
            return simp({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[t])
        if t in ('+', '-') and ins['t'] in ('int', 'int16'):
            r = simp(x + y if t == '+' else x - y)
            if ins['t'] == 'int16':
                self.oblige(S, '%s: no overflow' % where, And(z(r) >= -32768, z(r) <= 32767))
            return r
        if t == '+' and ins['t'] == 'uint':
            return simp(x + y)
        if ins['t'] in ('int', 'uint') and (t == '/' and z3.is_int_value(y) and y.as_long() > 0 or t == '>>' and z3.is_int_value(y) and 0 <= y.as_long() < 32):
            d = y.as_long() if t == '/' else 1 << y.as_long()
            # a shift rounds down, a division towards zero
            return simp(x / d if t == '>>' else z3.If(x >= 0, x / d, -((-x) / d)))
        raise Unsupported('operator %s on %s' % (t, ins['t']))

    def load(self, S, p, where):
        if isinstance(p, Cell):
            return S.cells[p.c]
        if isinstance(p, RootP):
            return S.root
        if isinstance(p, FieldP):
            n = p.node
            if p.f == 0:
                v = S.subid(n)
                S.assume(v >= 0, v <= MASK)
                return v
            if p.f == 1:
                return S.parent(n)
            if p.f == 2:
                s = Sl('N', S.cb(n), S.co(n), S.cl(n), S.cc(n))
                S.assume(s.off >= 0, s.ln >= 0, s.cap >= s.ln)
                if not self.dry and self.prove(S, '', s.off == 0, quiet=True, ms=1000):
                    S.assume(s.off == 0)
                    s.off = 0
                return s
            return Other()
        if isinstance(p, ElemP):
            v = (S.mem if p.kind == 'N' else S.memU)(p.obj, z(p.i))
            if p.kind == 'U':
                S.assume(v >= 0, v <= MASK)
            return v
        raise Unsupported('load')

    def store(self, S, p, v, where):
        if isinstance(p, Cell):
            S.cells[p.c] = v
        elif isinstance(p, RootP):
            S.g['root'] = v
        elif isinstance(p, FieldP):
            n = p.node
            if p.f == 0:
                S.put('subid', (n,), z(v))
            elif p.f == 1:
                S.put('parent', (n,), v)
            elif p.f == 2:
                S.put('cb', (n,), v.obj)
                S.put('co', (n,), z(v.off))
                S.put('cl', (n,), z(v.ln))
                S.put('cc', (n,), z(v.cap))
            else:
                self.oblige(S, '%s: the data of a node is left alone' % where, z3.Not(S.alive(n)))
        elif isinstance(p, ElemP):
            if p.kind == 'U':
                self.oblige(S, '%s: memory handed out is not written' % where, z3.Not(S.kept(p.obj)))
            S.put('mem' if p.kind == 'N' else 'memU', (p.obj, z(p.i)), z(v))
        else:
            raise Unsupported('store')

    # ---- calls
    def call(self, f, S, env, ins, depth, top, where):
        c = ins['call']
        if c.get('m'):
            raise Unsupported('interface call')
        fv = self.val(env, c['v'])
        args = [self.val(env, a) for a in c['args']]
        if isinstance(fv, Fn):
            n = fv.fn
            if n == '@b:len':
                return [(S, args[0].ln)]
            if n == '@b:cap':
                return [(S, args[0].cap)]
            if n == '@b:append':
                return self.append(S, args[0], args[1], where)
            if n == '@b:copy':
                return self.copy(S, args[0], args[1], where)
            if n.startswith('(*sync.'):
                return [(S, Tup([]))]
            if n == 'sort.Search':
                return self.search(S, args[0], args[1], depth, where)
            if n.startswith('@b:'):
                raise Unsupported('builtin ' + n)
            bind = ()
            clo = None
        elif isinstance(fv, Clo):
            n, bind, clo = fv.fn, fv.b, fv
        elif isinstance(fv, Other):
            if fv is VISIT and top is not None and 'visit' in top:
                top['visit'](self, S, args, where)
                return [(S, Tup([]))]
            raise Unsupported('call of an unknown function')
        else:
            raise Unsupported('call')
        con = self.contracts.get(n)
        if con is not None and n != (top or {}).get('inline'):
            self.used.add(n)
            for p, x in zip(self.funcs[n]['params'], args):
                if p['t'] == VISITOR and x is not VISIT:
                    raise Unsupported('a visitor other than that of the caller')
            return con.call(self, S, args, bind, top, where)
        self.inlined.add(n)
        res = []
        for T, r in self.outcomes(n, args, S, bind, depth + 1, top if depth < 3 else None):
            res.append((T, r[0] if len(r) == 1 else Tup(r)))
        return res

    def append(self, S, s, t, where):
        if not isinstance(t, Sl):
            raise Unsupported('append')
        nm = 'mem' if s.kind == 'N' else 'memU'
        n = simp(z(s.ln) + z(t.ln))
        out = []
        fits = simp(z(n) <= z(s.cap))
        for k in (True, False):
            c = fits if k else (not fits if isinstance(fits, bool) else z3.Not(fits))
            if isinstance(c, bool):
                if not c:
                    continue
            elif not self.dry and not self.feasible(S, c):
                continue
            T = S.clone()
            T.assume(c)
            old = T.m[nm]
            if k:
                if same(t.ln, 0):
                    out.append((T, s))
                    continue
                if s.kind == 'U':
                    self.oblige(T, '%s: memory handed out is not written' % where, z3.Or(z(t.ln) == 0, z3.Not(T.kept(s.obj))))
                lo, hi = z(s.off) + z(s.ln), z(s.off) + z(n)
                T.define(nm, lambda x, i: z3.If(And(x == s.obj, lo <= i, i < hi), old(t.obj, z(t.off) + i - lo), old(x, i)))
                out.append((T, Sl(s.kind, s.obj, s.off, n, s.cap)))
            else:
                o = self.newobj(T)
                T.define(nm, lambda x, i: z3.If(x == o, z3.If(i < z(s.ln), old(s.obj, simp2(z(s.off) + i)), old(t.obj, z(t.off) + i - z(s.ln))), old(x, i)))
                cap = fresh('cap', I)
                T.assume(cap >= z(n))
                out.append((T, Sl(s.kind, o, 0, n, cap)))
        return out

    def copy(self, S, d, s, where):
        if not isinstance(s, Sl):
            raise Unsupported('copy')
        nm = 'mem' if s.kind == 'N' else 'memU'
        n = simp(z3.If(z(d.ln) <= z(s.ln), z(d.ln), z(s.ln)))
        if same(n, 0):
            return [(S, 0)]
        if s.kind == 'U':
            self.oblige(S, '%s: memory handed out is not written' % where, z3.Or(z(n) == 0, z3.Not(S.kept(d.obj))))
        S = S.clone()
        old = S.m[nm]
        lo = z(d.off)
        S.define(nm, lambda x, i: z3.If(And(x == d.obj, lo <= i, i < lo + z(n)), old(s.obj, z(s.off) + i - lo), old(x, i)))
        return [(S, n)]

    def search(self, S, n, pred, depth, where):
        """sort.Search: binary search; f(r) holds if r < n, f(r-1) does not if r > 0 (f called within [0,n) only)"""
        self.models.add('sort.Search: 0 <= r <= n, f(r) if r < n, not f(r-1) if r > 0, f called within [0,n) only, for an f without effects')
        if not isinstance(pred, Clo):
            raise Unsupported('sort.Search with a function value')
        self.oblige(S, '%s: sort.Search size' % where, z(n) >= 0)
        r = fresh('r', I)
        S = S.clone()
        S.assume(r >= 0, r <= z(n))

        def f(j):
            """the predicate at j as a formula, its panics as obligations"""
            T = S.clone()
            T.assume(j >= 0, j < z(n))
            k = len(T.hyps)
            fs = []
            for U, res in self.outcomes(pred.fn, [j], T, pred.b, depth + 1):
                if any(not U.m[x].eq(S.m[x]) for x in S.m) or any(not self.same_value(U.cells[x], S.cells[x]) for x in S.cells):
                    raise Unsupported('predicate with effects')
                fs.append((And(*U.hyps[k:]) if len(U.hyps) > k else z3.BoolVal(True), res[0]))
            return z3.And([z3.Implies(a, z(b)) for a, b in fs]), z3.And([z3.Implies(a, z3.Not(z(b))) for a, b in fs])
        if not self.dry:
            f(fresh('j', I))
        pos, _ = f(r)
        S1 = S.clone()
        S1.assume(z3.Implies(r < z(n), pos))
        _, neg = f(r - 1)
        S1.assume(z3.Implies(r > 0, neg))
        return [(S1, r)]

    # ---- a contract
    def verify(self, name, con):
        """con.start(self) gives the state and arguments, con.finish the obligations of every way out"""
        todo = [{}]
        err = None
        tried = 0
        while todo:
            self.plan = todo.pop()
            self.modcache = {}
            tried += 1
            keep = list(self.proved)
            try:
                S, args, bind, top = con.start(self, name)
                top.setdefault('name', con.name)
                top['schemas'] = con.schemas
                top['inline'] = None
                top['S0'] = S.clone()
                top['args'] = args
                outs = self.outcomes(name, args, S, bind, 0, top)
                if not outs:
                    raise Failed('no way through ' + short(name))
                for T, r in outs:
                    con.finish(self, top, T, r)
                return None
            except Choose as c:
                for ch in reversed(c.cands):
                    p = dict(self.plan)
                    p[c.key] = ch
                    todo.append(p)
            except Failed as x:
                err = str(x)
                self.proved = keep
                if self.log:
                    self.log('    plan failed: %s' % err)
                if 'time budget' in err:
                    break
        return err or 'no plan'


def simp2(x):
    return z3.simplify(x)


def short(n):
    return n.replace(MOD, '')
