"""Lock contracts.

Every public operation of a tree is verified against the contract

    { no lock held }  operation  { no lock held, on return and on panic }

with each lock acquired and released at most once,
and every access to shared memory inside it (directly or in any function it calls) against
"the lock is held, exclusively for a write". The ghost state is the set of held locks. The
functions are interpreted over all paths (conditions are free unless a path has decided them
before), calls to in-package functions and closures by their verified summaries, recursion by
the least fixed point, so that the result covers every input and every iteration. Functions
handed in by the caller may panic or return.

Shared memory: the fields of the structs of the package and the arrays and maps they hold, the
fields of the tree itself and package variables as far as some operation changes them. Memory
allocated by the operation is private until its address is stored somewhere.
"""
import re

LOCKOPS = {'Lock': ('N', 'W'), 'RLock': ('N', 'R'), 'Unlock': ('W', 'N'), 'RUnlock': ('R', 'N')}
READONLY = re.compile(r'^(sort\.(Search\w*|SliceIsSorted|Find)|slices\.(BinarySearch\w*|Index\w*|Contains\w*|Clone|Equal\w*|Compare\w*|IsSorted\w*)|fmt\.\w+|strings\.\w+|strconv\.\w+)')


class Bad(Exception):
    pass


class Locks:
    def __init__(self, prog, pkg, tree):
        self.prog, self.funcs = prog, prog['funcs']
        self.pkg = pkg                       # import path
        self.tree = pkg + '.' + tree
        self.types = prog['types']
        self.cells = {}
        self.memo = {}
        self.accesses = {}                   # key -> set of (kind, held, op)
        self.errors = {}
        self.proved = {}
        self.changed = False
        self.op = None
        self.used = set()
        self.models = set()
        self.mutable = self.find_mutable()
        self.steps = 0

    # ---- types
    def named_struct(self, t):
        d = self.types.get(t)
        return d is not None and d['k'] == 'named' and t.startswith(self.pkg + '.') and d.get('under', '').startswith('struct{')

    def ptr_elem(self, t):
        return t[1:] if t.startswith('*') else None

    def shared_struct(self, t):
        return self.named_struct(t) and t != self.tree

    def regtypes(self, f):
        r = f.get('_rt')
        if r is None:
            r = {p['n']: p['t'] for p in f['params'] + (f.get('freevars') or [])}
            for b in f['blocks']:
                for x in b['i']:
                    if 'n' in x and 't' in x:
                        r[x['n']] = x['t']
            f['_rt'] = r
        return r

    def find_mutable(self):
        """fields of the tree and package variables that are changed other than at creation"""
        out = set()
        for n, f in self.funcs.items():
            if f.get('pkg') != self.pkg or not f.get('blocks') or self.spec(n) or f['name'].endswith('.init'):
                continue
            rt = self.regtypes(f)
            defs = {x['n']: x for b in f['blocks'] for x in b['i'] if 'n' in x}
            for b in f['blocks']:
                for x in b['i']:
                    if x['op'] != 'Store':
                        continue
                    a = x['a']
                    while isinstance(a, str) and a.startswith('%'):
                        d = defs.get(a[1:])
                        if d is None:
                            break
                        if d['op'] == 'FieldAddr':
                            base = d['x']
                            bt = rt.get(base[1:], '') if base.startswith('%') else ''
                            bd = defs.get(base[1:]) if base.startswith('%') else None
                            if self.ptr_elem(bt) == self.tree and not (bd and bd['op'] == 'Alloc'):
                                out.add(('field', d['i']))
                            a = base
                        elif d['op'] == 'IndexAddr':
                            a = d['x']
                        else:
                            break
                    if isinstance(a, str) and a.startswith('@g:'):
                        out.add(('global', a[3:]))
        return out

    def spec(self, n):
        s = n.rsplit('.', 1)[-1].split('$')[0]
        return bool(re.match(r'z[a-z]', s)) and 'zz_verif' in (self.funcs[n].get('pos') or 'zz_verif')

    # ---- driver
    def operations(self):
        out = []
        for n, f in sorted(self.funcs.items()):
            if f.get('pkg') != self.pkg or not f.get('blocks') or '$' in n or self.spec(n):
                continue
            short = n.rsplit('.', 1)[-1]
            if not short[:1].isupper() or f.get('synthetic'):
                continue
            if any(p['t'] in ('*' + self.tree, self.tree) for p in f['params']):
                out.append(n)
        return out

    def run(self):
        ops = self.operations()
        for op in ops:
            self.op = op
            f = self.funcs[op]
            args = tuple(self.typed(p['t'], True) for p in f['params'])
            for _ in range(50):
                self.changed = False
                self.active = set()
                self.round = set()
                outs = self.call(op, args, (), frozenset(), frozenset())
                if not self.changed:
                    break
            else:
                self.err(op, 'no fixed point', '')
            if not outs:
                self.err(op, 'the operation ends', 'no way out found')
            for kind, held, esc, ret in outs:
                self.oblig(all(m == 'D' for i, m in held), op, 'no lock is held at the end (%s)' % {'ret': 'return', 'panic': 'panic'}[kind], 'held: %s' % self.show(held))
        # one lock protects every access
        ids = {i for acc in self.accesses.values() for k, held, op in acc for i, m in held}
        best = None
        for i in sorted(ids) or [None]:
            bad = []
            for key, acc in self.accesses.items():
                for k, held, op in acc:
                    m = dict(held).get(i)
                    if m not in ('R', 'W') or k == 'w' and m != 'W':
                        bad.append((key, k, held, op))
            if best is None or len(bad) < len(best[1]):
                best = (i, bad)
        if best:
            badset = {(b[0], b[1], b[2], b[3]) for b in best[1]}
            for key, acc in self.accesses.items():
                for k, held, op in acc:
                    fn, pos, what = key
                    self.oblig((key, k, held, op) not in badset, op, '%s of %s in %s (%s) holds the lock%s' % ('write' if k == 'w' else 'read', what, self.sh(fn), pos, ' exclusively' if k == 'w' else ''), 'held: %s' % self.show(held))
            self.lock = best[0]
        else:
            self.lock = None
        self.ops = ops
        return self

    def sh(self, n):
        return n.replace(self.pkg + '.', '')

    def show(self, held):
        return ', '.join('%s %s' % (i, {'R': 'shared', 'W': 'exclusively', 'D': 'no more'}[m]) for i, m in sorted(held)) or 'nothing'

    def oblig(self, ok, op, name, detail):
        k = (self.sh(op), name)
        if ok:
            self.proved.setdefault(k, detail)
        else:
            self.errors.setdefault(k, detail)

    def err(self, op, name, detail):
        self.errors.setdefault((self.sh(op or ''), name), detail)

    def access(self, fn, x, kind, what, st):
        key = (fn, x.get('pos', ''), what)
        self.accesses.setdefault(key, set()).add((kind, st['held'], self.op))

    # ---- abstract values: frozensets of atoms
    def typed(self, t, entry=False):
        d = self.types.get(t, {})
        e = self.ptr_elem(t)
        if e == self.tree:
            return frozenset([('tree',)])
        if e and self.shared_struct(e):
            return frozenset([('node',)])
        if t == self.tree:
            return frozenset([('treeval',)])
        if t.startswith('func(') or d.get('under', '').startswith('func('):
            return frozenset([('visitor',)])
        return frozenset([('top',)])

    def val(self, env, x, f):
        if isinstance(x, dict):
            if 'c' in x and isinstance(x['c'], bool):
                return frozenset([('const', x['c'])])
            if x.get('c', 0) is None:
                return frozenset([('nil',)])
            return frozenset([('top',)])
        if x is None:
            return frozenset([('top',)])
        if x.startswith('%'):
            return env.get(x[1:], frozenset())
        if x.startswith('@f:'):
            return frozenset([('fn', x[3:])])
        if x.startswith('@g:'):
            return frozenset([('global', x[3:])])
        if x.startswith('@b:'):
            return frozenset([('builtin', x[3:])])
        return frozenset([('top',)])

    def store_cell(self, key, v):
        old = self.cells.get(key, frozenset())
        new = old | v
        if new != old:
            self.cells[key] = new
            self.changed = True

    def call(self, fn, args, binds, held, esc):
        key = (fn, args, binds, held, esc)
        if key in self.active or key in self.round:
            return self.memo.get(key, frozenset())
        self.active.add(key)
        try:
            outs = frozenset(self.body(fn, args, binds, held, esc))
        finally:
            self.active.discard(key)
        old = self.memo.get(key, frozenset())
        new = old | outs
        if new != old:
            self.memo[key] = new
            self.changed = True
        self.round.add(key)
        if len(self.memo) > 5000:
            raise Bad('too many contexts')
        return self.memo[key]

    def recovers(self, fn, seen=None):
        seen = seen or set()
        if fn in seen or fn not in self.funcs:
            return False
        seen.add(fn)
        for b in self.funcs[fn].get('blocks') or []:
            for x in b['i']:
                if x.get('call', {}).get('v') == '@b:recover':
                    return True
        return False

    def body(self, fn, args, binds, held, esc):
        f = self.funcs[fn]
        self.used.add(fn)
        env = {}
        for p, a in zip(f['params'], args):
            env[p['n']] = a
        for p, a in zip(f.get('freevars') or [], binds):
            env[p['n']] = a
        rt = self.regtypes(f)
        outs = set()
        start = (0, None, held, esc, frozenset(), ())
        # the registers of one activation are joined over all paths; repeat until stable
        while True:
            snap = dict(env)
            seen = set()
            work = [start]
            while work:
                s = work.pop()
                if s in seen:
                    continue
                seen.add(s)
                if len(seen) > 20000:
                    raise Bad('too many states in ' + fn)
                self.block(f, fn, env, rt, s, work, outs)
            if env == snap:
                break
        return outs

    def setreg(self, env, n, v):
        env[n] = env.get(n, frozenset()) | v

    def block(self, f, fn, env, rt, s, work, outs):
        b, prev, held, esc, conds, defers = s
        st = {'held': held, 'esc': esc, 'conds': dict(conds), 'defers': defers}
        self.instrs(f, fn, env, rt, b, prev, 0, st, work, outs)

    def freeze(self, st, b, prev):
        return (b, prev, st['held'], st['esc'], frozenset(st['conds'].items()), st['defers'])

    def instrs(self, f, fn, env, rt, b, prev, ip, st, work, outs):
        ins = f['blocks'][b]['i']
        succ = f['blocks'][b]['s']
        while ip < len(ins):
            x = ins[ip]
            ip += 1
            op = x['op']
            n = x.get('n')
            if n is not None:
                st['conds'].pop(n, None)
            if op == 'Phi':
                i = f['blocks'][b]['p'].index(prev)
                e = x['e'][i]
                self.setreg(env, n, self.val(env, e, f))
                if isinstance(e, dict) and isinstance(e.get('c'), bool):
                    st['conds'][n] = e['c']
                elif isinstance(e, str) and e[1:] in st['conds']:
                    st['conds'][n] = st['conds'][e[1:]]
            elif op == 'Alloc':
                e = x['elem']
                site = (fn, n)
                if self.named_struct(e):
                    v = ('fresh', site)
                else:
                    v = ('cell', site)
                self.setreg(env, n, frozenset([v]))
            elif op == 'FieldAddr':
                self.setreg(env, n, self.fieldaddr(self.val(env, x['x'], f), x['i'], rt.get(x['x'][1:], '') if isinstance(x['x'], str) else ''))
            elif op == 'IndexAddr':
                v = set()
                for a in self.val(env, x['x'], f):
                    if a[0] == 'kids':
                        v.add(('elem',))
                    elif a[0] == 'cell':
                        v.add(('cell', (a[1], '[]')))
                    elif a[0] == 'global':
                        v.add(a)
                    elif a[0] == 'faddr':
                        v.add(a)
                    else:
                        v.add(('local',))
                self.setreg(env, n, frozenset(v))
            elif op == 'Slice':
                v = set()
                for a in self.val(env, x['x'], f):
                    if a[0] in ('cell', 'faddr'):
                        # a slice of an array variable
                        v.add(('kids',) if a[0] == 'faddr' else ('priv',))
                    else:
                        v.add(a)
                self.setreg(env, n, frozenset(v))
            elif op == 'UnOp' and x['tok'] == '*':
                self.setreg(env, n, self.load(fn, x, self.val(env, x['x'], f), x['t'], st))
            elif op == 'UnOp' and x['tok'] == '!':
                self.setreg(env, n, frozenset([('top',)]))
                if isinstance(x['x'], str) and x['x'][1:] in st['conds']:
                    st['conds'][n] = not st['conds'][x['x'][1:]]
            elif op == 'Store':
                self.store(fn, x, self.val(env, x['a'], f), self.val(env, x['v'], f), st)
            elif op == 'MakeClosure':
                bs = tuple(self.val(env, y, f) for y in x['b'])
                self.escape(st, *bs)
                self.setreg(env, n, frozenset([('clo', x['fn'], bs)]))
            elif op in ('MakeSlice', 'MakeMap', 'MakeChan'):
                self.setreg(env, n, frozenset([('priv',)]))
            elif op in ('ChangeType', 'ChangeInterface', 'MakeInterface', 'TypeAssert', 'Convert'):
                v = self.val(env, x['x'], f)
                if op == 'MakeInterface':
                    self.escape(st, v)
                self.setreg(env, n, v if op != 'TypeAssert' else v | self.typed(x['t']))
            elif op == 'Extract':
                v = set()
                for a in self.val(env, x['x'], f):
                    if a[0] == 'tup':
                        v |= a[1][x['i']]
                    else:
                        v |= self.typed(x['t'])
                self.setreg(env, n, frozenset(v))
            elif op in ('Lookup', 'Index', 'Range', 'Next'):
                for a in self.val(env, x['x'], f):
                    if a[0] == 'kids':
                        self.access(fn, x, 'r', 'a container of a node', st)
                    elif a[0] == 'global' and a in self.mutable:
                        self.access(fn, x, 'r', a[1], st)
                self.setreg(env, n, self.typed(x['t']) if op != 'Range' else self.val(env, x['x'], f))
            elif op == 'MapUpdate':
                for a in self.val(env, x['m'], f):
                    if a[0] == 'kids':
                        self.access(fn, x, 'w', 'a container of a node', st)
                self.escape(st, self.val(env, x['v'], f))
            elif op == 'Field':
                self.setreg(env, n, self.typed(x['t']))
            elif op == 'Defer':
                c = x['call']
                st['defers'] = st['defers'] + ((self.callee(env, c, f), tuple(self.val(env, a, f) for a in c['args']), x.get('pos', '')),)
                self.escape(st, *[self.val(env, a, f) for a in c['args']])
                if len(st['defers']) > 8:
                    raise Bad('defer in a loop in ' + fn)
            elif op == 'RunDefers':
                res = self.rundefers(fn, st, False)
                first = True
                for kind, held, esc in res:
                    s2 = dict(st, held=held, esc=esc, defers=(), conds=dict(st['conds']))
                    if kind == 'panic':
                        outs.add(('panic', held, esc, ()))
                        continue
                    self.instrs(f, fn, env, rt, b, prev, ip, s2, work, outs)
                return
            elif op == 'Call':
                res = self.docall(fn, x, self.callee(env, x['call'], f), tuple(self.val(env, a, f) for a in x['call']['args']), st, x.get('t', '()'))
                for kind, held, esc, ret in sorted(res, key=str):
                    s2 = dict(st, held=held, esc=esc, conds=dict(st['conds']))
                    if kind == 'panic':
                        self.unwind(f, fn, s2, outs)
                        continue
                    if n is not None:
                        v = frozenset([('tup', ret)]) if len(ret) > 1 else ret[0] if ret else frozenset()
                        self.setreg(env, n, v)
                        if len(ret) == 1 and len(ret[0]) == 1:
                            a = next(iter(ret[0]))
                            if a[0] == 'const':
                                s2['conds'][n] = a[1]
                    self.instrs(f, fn, env, rt, b, prev, ip, s2, work, outs)
                return
            elif op == 'Go':
                s2 = dict(st, held=frozenset(), conds={})
                self.escape(st, *[self.val(env, a, f) for a in x['call']['args']])
                s2['esc'] = st['esc']
                self.docall(fn, x, self.callee(env, x['call'], f), tuple(self.val(env, a, f) for a in x['call']['args']), s2, '()')
            elif op == 'Panic':
                self.unwind(f, fn, st, outs)
                return
            elif op == 'If':
                c = x['x']
                known = None
                if isinstance(c, dict):
                    known = c.get('c')
                else:
                    known = st['conds'].get(c[1:])
                    if known is None:
                        v = env.get(c[1:], frozenset())
                        if len(v) == 1 and next(iter(v))[0] == 'const':
                            known = next(iter(v))[1]
                for k, t in ((True, succ[0]), (False, succ[1])):
                    if known is None or known == k:
                        s2 = dict(st, conds=dict(st['conds']))
                        if isinstance(c, str):
                            s2['conds'][c[1:]] = k
                        work.append(self.freeze(s2, t, b))
                return
            elif op == 'Jump':
                work.append(self.freeze(st, succ[0], b))
                return
            elif op == 'Return':
                outs.add(('ret', st['held'], st['esc'], tuple(self.val(env, r, f) for r in x['r'])))
                return
            elif n is not None:
                self.setreg(env, n, self.typed(x.get('t', '')))
            elif op in ('DebugRef',):
                pass
            else:
                self.err(fn, 'the code is within reach', 'unsupported instruction %s in %s' % (op, fn))

    def fieldaddr(self, base, i, bt):
        v = set()
        e = self.ptr_elem(bt) or ''
        for a in base:
            if a[0] == 'fresh':
                v.add(('ffield', a[1], i, e == self.tree))
            elif a[0] == 'cell':
                v.add(('cell', (a[1], i)))
            elif a[0] == 'global':
                v.add(a)
            elif e == self.tree:
                v.add(('tfield', i))
            elif self.shared_struct(e):
                v.add(('faddr',))
            elif a[0] in ('faddr', 'tfield', 'ffield'):
                v.add(a)
            else:
                v.add(('local',))
        return frozenset(v)

    def escape(self, st, *vs):
        add = set()
        for v in vs:
            for a in v:
                if a[0] in ('fresh', 'ffield'):
                    add.add(a[1])
        if add - st['esc']:
            st['esc'] = st['esc'] | add

    def load(self, fn, x, addr, t, st):
        v = set()
        for a in addr:
            if a[0] == 'cell':
                v |= self.cells.get(a[1], frozenset())
                if not self.cells.get(a[1]):
                    v |= {('nil',)}
            elif a[0] == 'faddr':
                self.access(fn, x, 'r', 'a node', st)
                v |= self.contents(t)
            elif a[0] == 'elem':
                self.access(fn, x, 'r', 'a container of a node', st)
                v |= self.typed(t)
            elif a[0] == 'ffield':
                if a[1] in st['esc']:
                    if not a[3] or ('field', a[2]) in self.mutable:
                        self.access(fn, x, 'r', 'a node', st)
                    v |= self.contents(t)
                else:
                    v |= self.cells.get(a, frozenset()) or self.contents(t)
            elif a[0] == 'tfield':
                if ('field', a[1]) in self.mutable:
                    self.access(fn, x, 'r', 'field %d of the tree' % a[1], st)
                v |= self.contents(t)
            elif a[0] == 'global':
                if a in self.mutable:
                    self.access(fn, x, 'r', a[1], st)
                v |= self.typed(t)
            elif a[0] == 'node' and t.startswith(self.pkg):
                self.access(fn, x, 'r', 'a node', st)
                v |= self.typed(t)
            else:
                v |= self.typed(t)
        return frozenset(v)

    def contents(self, t):
        if t.startswith('[]') or t.startswith('map[') or self.types.get(t, {}).get('under', '').startswith(('[]', 'map[')):
            return frozenset([('kids',)])
        return self.typed(t)

    def store(self, fn, x, addr, v, st):
        for a in addr:
            if a[0] == 'cell':
                self.store_cell(a[1], v)
            elif a[0] == 'ffield':
                if a[1] in st['esc']:
                    self.access(fn, x, 'w', 'a node', st)
                else:
                    self.store_cell(a, v)
            elif a[0] == 'faddr':
                self.access(fn, x, 'w', 'a node', st)
            elif a[0] == 'elem':
                self.access(fn, x, 'w', 'a container of a node', st)
            elif a[0] == 'tfield':
                self.access(fn, x, 'w', 'field %d of the tree' % a[1], st)
            elif a[0] == 'global':
                self.access(fn, x, 'w', a[1], st)
            elif a[0] in ('node', 'tree'):
                self.access(fn, x, 'w', 'a node', st)
        if not all(a[0] == 'cell' for a in addr):
            self.escape(st, v)
        else:
            # a variable that holds the address: not shared by itself
            pass

    # ---- calls
    def callee(self, env, c, f):
        if 'v' not in c or c.get('m') or c.get('invoke'):
            return frozenset([('invoke', str(c.get('m') or c.get('method') or ''))])
        return self.val(env, c['v'], f)

    def lockid(self, v):
        out = set()
        for a in v:
            if a[0] == 'tfield':
                out.add('tree.%d' % a[1])
            elif a[0] == 'global':
                out.add('var ' + a[1])
            else:
                out.add('other ' + str(a)[:80])
        return out

    def docall(self, fn, x, callee, args, st, rt):
        """set of (kind, held, esc, results)"""
        outs = set()
        for c in callee:
            outs |= self.call1(fn, x, c, args, st, rt)
        return outs

    def results(self, rt):
        rt = rt.strip()
        if rt in ('()', ''):
            return ()
        if rt.startswith('('):
            parts, d, cur = [], 0, ''
            for ch in rt[1:-1]:
                if ch in '([{':
                    d += 1
                if ch in ')]}':
                    d -= 1
                if ch == ',' and d == 0:
                    parts.append(cur)
                    cur = ''
                else:
                    cur += ch
            parts.append(cur)
            return tuple(self.typed(p.strip().split(' ')[-1]) for p in parts)
        return (self.typed(rt),)

    def call1(self, fn, x, c, args, st, rt):
        held, esc = st['held'], st['esc']
        ret = self.results(rt)
        if c[0] == 'builtin':
            nm = c[1]
            if nm == 'append' or nm == 'copy':
                for i, a in enumerate(args[:2]):
                    if ('kids',) in a:
                        self.access(fn, x, 'w' if i == 0 else 'r', 'a container of a node', st)
                if nm == 'append':
                    r = set(args[0]) - {('nil',)}
                    return {('ret', held, st['esc'], (frozenset(r | {('priv',)}),))}
            elif nm in ('delete', 'clear') and ('kids',) in args[0]:
                self.access(fn, x, 'w', 'a container of a node', st)
            elif nm == 'len' or nm == 'cap':
                pass
            elif nm == 'ssa:wrapnilchk':
                return {('ret', held, esc, (args[0],))}
            return {('ret', held, esc, ret)}
        if c[0] in ('fn', 'clo'):
            name = c[1]
            m = re.match(r'^\(\*sync\.(RWMutex|Mutex)\)\.(\w+)$', name)
            if m:
                return self.lockop(fn, x, m.group(2), args[0], st)
            f = self.funcs.get(name)
            if f is not None and f.get('blocks') and f.get('pkg', '').startswith(self.pkg.rsplit('/', 1)[0]):
                return self.call(name, args, c[2] if c[0] == 'clo' else (), held, esc)
            # outside the module: may call the functions it is given
            self.models.add(name)
            for a in args:
                if ('kids',) in a:
                    self.access(fn, x, 'r' if READONLY.match(name) else 'w', 'a container of a node', st)
            self.escape(st, *args)
            states = {(held, st['esc'])}
            kinds = set()
            for _ in range(4):
                new = set(states)
                for a in args:
                    for y in a:
                        if y[0] == 'clo' or y[0] == 'fn' and y[1] in self.funcs:
                            g = self.funcs[y[1]]
                            for h, e in list(states):
                                for k, h2, e2, r2 in self.call(y[1], tuple(self.typed(p['t']) for p in g['params']), y[2] if y[0] == 'clo' else (), h, e):
                                    if k == 'ret':
                                        new.add((h2, e2))
                                    else:
                                        kinds.add(('panic', h2, e2, ()))
                        elif y[0] == 'visitor':
                            kinds.add(('panic', held, st['esc'], ()))
                if new == states:
                    break
                states = new
            return {('ret', h, e, ret) for h, e in states} | kinds
        if c[0] == 'nil':
            return set()
        # a function handed in by the caller, or an interface method
        self.escape(st, *args)
        self.models.add('functions handed in by the caller: do not use the tree, may panic')
        out = {('ret', held, st['esc'], ret)}
        if c[0] in ('visitor', 'top'):
            out.add(('panic', held, st['esc'], ()))
        return out

    def lockop(self, fn, x, op, addr, st):
        held = dict(st['held'])
        esc = st['esc']
        ids = self.lockid(addr)
        pos = x.get('pos', '')
        outs = set()
        if op in ('TryLock', 'TryRLock'):
            for i in ids:
                h = dict(held)
                if h.get(i, 'N') != 'N':
                    self.oblig(False, self.op, '%s of the lock in %s (%s) finds it free (and not yet used by this operation)' % (op, self.sh(fn), pos), '')
                h[i] = 'W' if op == 'TryLock' else 'R'
                outs.add(('ret', frozenset(h.items()), esc, (frozenset([('const', True)]),)))
            outs.add(('ret', frozenset(held.items()), esc, (frozenset([('const', False)]),)))
            return outs
        if op not in LOCKOPS:
            self.err(fn, 'the code is within reach', 'unsupported lock operation %s' % op)
            return {('ret', st['held'], esc, ())}
        before, after = LOCKOPS[op]
        for i in ids:
            h = dict(held)
            m = h.get(i, 'N')
            self.oblig(m == before, self.op, '%s of the lock in %s (%s) finds it %s' % (op, self.sh(fn), pos, {'N': 'free (and not yet used by this operation)', 'W': 'held exclusively', 'R': 'held shared'}[before]), 'it is %s' % {'N': 'not held', 'W': 'held exclusively', 'R': 'held shared', 'D': 'released already'}[m])
            if after == 'N':
                h[i] = 'D'
            else:
                h[i] = after
            outs.add(('ret', frozenset(h.items()), esc, ()))
        return outs

    def rundefers(self, fn, st, panicking):
        states = {('panic' if panicking else 'ret', st['held'], st['esc'])}
        for callee, args, pos in reversed(st['defers']):
            new = set()
            for kind, held, esc in states:
                s2 = dict(st, held=held, esc=esc, conds={})
                for k, h, e, r in self.docall(fn, {'pos': pos}, callee, args, s2, '()'):
                    if k == 'panic':
                        new.add(('panic', h, e))
                    else:
                        rec = kind == 'panic' and any(c[0] in ('fn', 'clo') and self.recovers(c[1]) for c in callee)
                        new.add(('ret' if rec else kind, h, e))
            states = new
        return states

    def unwind(self, f, fn, st, outs):
        for kind, held, esc in self.rundefers(fn, st, True):
            if kind == 'ret':
                outs.add(('ret', held, esc, tuple(self.typed(t) for t in f['results'])))
            else:
                outs.add(('panic', held, esc, ()))


if __name__ == '__main__':
    import json
    import sys
    p = json.load(open(sys.argv[1]))
    a = Locks(p, 'github.com/alexispb/mygosnmp/oid', 'Tree').run()
    print('lock', a.lock, 'ops', len(a.ops), 'mutable', a.mutable)
    for k, v in sorted(a.proved.items()):
        if k not in a.errors:
            print('ok  ', k, v)
    for k, v in sorted(a.errors.items()):
        print('BAD ', k, v)
    print(a.models)
