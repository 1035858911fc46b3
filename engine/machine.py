"""Symbolic execution of Go SSA with contracts, loop summaries and opaque
specification functions."""
import itertools
import sys
import z3
from core import *

import loops
import models
from loops import Split

MOD = 'github.com/alexispb/mygosnmp/'


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'regs', 'defers', 'mode', 'ret', 'loops', 'kind', 'fv')

    def __init__(self, fn, regs, ret, kind='call'):
        self.fn = fn
        self.blk = 0
        self.ip = 0
        self.prev = None
        self.regs = regs
        self.defers = []
        self.mode = 'run'      # run | panic | recovered
        self.ret = ret         # ('reg', name) | ('base',) | ('defer',) | ('drop',)
        self.loops = {}
        self.kind = kind

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.ip, f.prev = self.fn, self.blk, self.ip, self.prev
        f.regs = dict(self.regs)
        f.defers = list(self.defers)
        f.mode, f.ret, f.kind = self.mode, self.ret, self.kind
        f.loops = dict(self.loops)
        return f


class Fact:
    """forall j: lo <= j < hi -> body(j)   (body: list of z3 formulas over formal k)"""
    __slots__ = ('k', 'body', 'lo', 'hi')

    def __init__(self, k, body, lo, hi):
        self.k, self.body, self.lo, self.hi = k, body, lo, hi

    def at(self, t):
        g = band(ile(self.lo, t), ilt(t, self.hi))
        if g is False:
            return True
        b = z3.substitute(self.body, (self.k, z(t)))
        return bimp(g, bsimp(b))


class State:
    def __init__(self):
        self.frames = []
        self.heap = {}
        self.pc = []
        self.facts = []
        self.kappas = []
        self.events = []
        self.cuts = []
        self.base = 0
        self.flags = {}

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.kappas = list(self.kappas)
        s.events = list(self.events)
        s.cuts = list(self.cuts)
        s.base = self.base
        s.flags = dict(self.flags)
        return s

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Dead()
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        i = c.get_id()
        for x in self.pc:
            if x.get_id() == i:
                return
        self.pc.append(keep(c))


class Outcome:
    def __init__(self, kind, st, value=None, info=None):
        self.kind, self.st, self.value, self.info = kind, st, value, info


class ObligationFailure(Exception):
    pass


def loops_of(fn):
    """natural loops: header -> set of blocks"""
    if '_loops' in fn:
        return fn['_loops']
    blocks = fn['blocks']
    n = len(blocks)
    # dominators (iterative)
    dom = [set(range(n)) for _ in range(n)]
    roots = [0]
    if fn.get('recover') is not None:
        roots.append(fn['recover'])
    for r in roots:
        dom[r] = {r}
    changed = True
    while changed:
        changed = False
        for b in range(n):
            if b in roots:
                continue
            ps = [dom[p] for p in blocks[b]['p']]
            new = set.intersection(*ps) | {b} if ps else {b}
            if new != dom[b]:
                dom[b] = new
                changed = True
    loops = {}
    for b in range(n):
        for s in blocks[b]['s']:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x not in body:
                        body.add(x)
                        stack.extend(blocks[x]['p'])
    fn['_loops'] = loops
    return loops


class Engine:
    Fact = Fact

    def __init__(self, prog, ctx=None, **opt):
        self.prog = prog
        self.funcs = prog['funcs']
        self.T = prog['_types'] if '_types' in prog else Types(prog['types'])
        prog['_types'] = self.T
        self.methods = prog['methods']
        self.ctx = ctx or Ctx(opt.get('timeout', 10000))
        self.contracts = opt.get('contracts', {})      # real name -> contract name
        self.reveal = set(opt.get('reveal', ()))
        self.reveal_all = opt.get('reveal_all', False)
        self.globals = prog.get('_globals')            # heap of initialised globals
        self.no_contract = set()
        self.maxpaths = opt.get('maxpaths', 4000)
        self.maxsteps = opt.get('maxsteps', 2000000)
        self.npaths = 0
        self.enstmpl = {}
        self.nsteps = 0
        self.proved = []        # (name, detail)
        self.failed = []        # (name, detail, st)
        self.used_contracts = set()
        self.used_models = set()
        self.used_funcs = set()
        self.used_opaque = set()
        self.used_rewrites = set()
        self.rewrites = False
        self.debug = opt.get('debug', False)
        self.deadline = opt.get('deadline')
        self.loop_log = []
        self.objn = itertools.count()
        self.ufs = {}
        self.qkinds = {}
        self.frame_check = opt.get('frame_check', False)
        self.list_specs = opt.get('list_specs', [])
        import models
        import reflection       # noqa: F401  (registers its models)
        self.models = models.MODELS
        self.no_model = set()
        self.sums = self.ctx.sums
        self.quiet = False
        self.split = opt.get('split')
        self.exact = opt.get('exact', False)
        self.alloc_bound = None
        self.max_unroll = opt.get('max_unroll', 8)

    # ------------------------------------------------------------ small helpers
    def kind(self, t):
        return self.T.kind(t)

    def uf(self, name, *sorts):
        f = self.ufs.get(name)
        if f is None:
            f = z3.Function(name, *sorts) if len(sorts) > 1 else None
            if f is None:
                c = keep(z3.Const(name, sorts[0]))
                self.ufs[name] = c
                return c
            self.ufs[name] = f
        return f

    def app(self, name, args, res):
        """apply an uninterpreted function (a constant when there are no args)"""
        args = [z(a) for a in args]
        if not args:
            return self.uf(name, res)
        f = self.uf(name, *([a.sort() for a in args] + [res]))
        return keep(f(*args))

    def newobj(self, st, obj):
        i = '%s%d' % ('g' if st.flags.get('init') else 'o', next(self.objn))
        st.heap[i] = obj
        return i

    def prunable(self, st, c):
        return self.ctx.check(st.pc, [c]) == 'unsat'

    def decide(self, st, c):
        if isinstance(c, bool):
            return c
        r1 = self.ctx.check(st.pc, [c])
        if r1 == 'unsat':
            if self.ctx.check(st.pc) == 'unsat':
                raise Dead()
            return False
        n = bnot(c)
        if isinstance(n, bool):
            return not n
        r2 = self.ctx.check(st.pc, [n])
        if r2 == 'unsat':
            return True
        if self.rewrites and self.sum_terms([c]) and self.sum_lemmas(st, c):
            return self.decide(st, c)
        raise Fork(c)

    def valid(self, st, c):
        """True iff c is entailed (no fork)"""
        if isinstance(c, bool):
            return c
        n = bnot(c)
        if isinstance(n, bool):
            return not n
        return self.ctx.check(st.pc, [n]) == 'unsat'

    def prove(self, st, c):
        if isinstance(c, bool):
            return c or self.infeasible(st)
        c2 = self.i2b_congruence(st, c)
        if c2 is not c:
            if isinstance(c2, bool):
                return c2
            c = c2
        if self.valid(st, c):
            return True
        if self.sum_lemmas(st, c):
            if self.valid(st, c):
                return True
        if self.inst_facts(st, [c]):
            if self.valid(st, c):
                return True
        return False

    def i2b_congruence(self, st, c):
        """merge int-to-bitvector conversions of provably equal integers"""
        found = []
        seen = set()
        stack = [c]
        while stack:
            x = stack.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if self.is_i2b(x):
                found.append(x)
            else:
                stack.extend(x.children())
        if len(found) < 2:
            return c
        reps = []
        subs = []
        for x in found:
            for r in reps:
                if r.size() == x.size():
                    g = ieq(isimp(r.arg(0)), isimp(x.arg(0)))
                    if g is True or (not isinstance(g, bool) and (self.valid(st, g) or (self.sum_lemmas(st, g) and self.valid(st, g)))):
                        subs.append((x, r))
                        break
            else:
                reps.append(x)
        if not subs:
            return c
        return bsimp(z3.substitute(c, *subs))

    def infeasible(self, st):
        """path condition contradictory, using everything known"""
        if self.ctx.check(st.pc) == 'unsat':
            return True
        s = st.clone()
        try:
            if self.inst_facts(s, []) and self.ctx.check(s.pc) == 'unsat':
                return True
            if self.sum_lemmas(s, z3.BoolVal(False)) and self.ctx.check(s.pc) == 'unsat':
                return True
        except Dead:
            return True
        return False

    def inst_facts(self, st, terms):
        """instantiate quantified facts at the integer index symbols around"""
        if not st.facts:
            return False
        added = False
        ks = list(st.kappas)
        for f in st.facts:
            for k in ks:
                for t in (k, iadd(k, -1)):
                    a = f.at(t)
                    if a is True:
                        continue
                    n = len(st.pc)
                    st.assume(a)
                    added = added or len(st.pc) > n
        return added

    # ------------------------------------------------------------ sorts, fresh values
    def sort(self, t):
        k = self.kind(t)
        if k[0] == 'int':
            return INT
        if k[0] == 'bv':
            return z3.BitVecSort(k[1])
        if k[0] == 'bool':
            return BOOL
        raise Unsupported('sort of ' + t)

    def zero(self, t):
        k = self.kind(t)
        if k[0] == 'int':
            return 0
        if k[0] == 'bv':
            return keep(z3.BitVecVal(0, k[1]))
        if k[0] == 'bool':
            return False
        if k[0] == 'string':
            return Str(())
        if k[0] == 'slice':
            return Slice(None, 0, 0, 0, True, k[1])
        if k[0] == 'array':
            return Arr([self.zero(k[1])] * k[2])
        if k[0] == 'struct':
            if self.T.canon(t) == 'strings.Builder':
                return Builder(())
            if t == 'reflect.Value':
                import reflection
                return reflection.RVal()
            return Struct([self.zero(f) for f in k[1]])
        if k[0] == 'iface':
            return Iface(None)
        if k[0] == 'ptr':
            return Ptr(None)
        if k[0] == 'func':
            return None
        if k[0] == 'map':
            return None
        if k[0] == 'tuple':
            return Tup([self.zero(f) for f in k[1]])
        raise Unsupported('zero of ' + t)

    def build(self, st, t, gen):
        """value of type t from leaves gen(path, sort); slices are external memory"""
        def rec(t, path):
            k = self.kind(t)
            if k[0] in ('int', 'bv', 'bool'):
                return gen(path, self.sort(t))
            if k[0] == 'string':
                q = gen(path + '.q', Q)
                ln = gen(path + '.l', INT)
                off = gen(path + '.o', INT)
                return Str(rope_norm((S(q, off, ln),)))
            if k[0] == 'slice':
                q = gen(path + '.q', Q)
                ln = gen(path + '.l', INT)
                off = gen(path + '.o', INT)
                nil = gen(path + '.n', BOOL)
                return self.ext_slice(st, q, off, ln, nil, k[1])
            if k[0] == 'array':
                return Arr([rec(k[1], '%s.%d' % (path, i)) for i in range(k[2])])
            if k[0] == 'struct':
                if self.T.canon(t) == 'strings.Builder':
                    q = gen(path + '.q', Q)
                    ln = gen(path + '.l', INT)
                    return Builder((S(q, 0, ln),))
                if self.T.canon(t) == 'sync.RWMutex':
                    return Opaque('mutex')
                return Struct([rec(f, '%s.%d' % (path, i)) for i, f in enumerate(k[1])])
            if k[0] == 'iface':
                return SymIface(gen(path + '.i', IF))
            if k[0] == 'ptr':
                v = rec(k[1], path + '.*')
                kk = self.kind(k[1])
                if kk[0] == 'array':
                    o = self.newobj(st, Obj('arr', tuple(U(x) for x in v.f), et=kk[1], ext=True, name=path))
                else:
                    o = self.newobj(st, Obj('cell', v, ext=True, name=path, t=k[1]))
                return Ptr(o)
            if k[0] == 'func':
                return Opaque('func ' + path)
            raise Unsupported('symbolic value of type ' + t)
        return rec(t, '')

    def ext_slice(self, st, q, off, ln, nil, et):
        """slice over memory owned by somebody else, with content window (q,off,ln)"""
        keep(q)
        oid = 'x%d' % q.get_id()
        if oid not in st.heap:
            st.heap[oid] = Obj('arr', (S(q, 0, keep(qlen(q))),), et=et, ext=True, name=str(q)[:40])
        L = qlen(q)
        self.ctx.axiom(band(ile(0, ln), ile(0, off), ile(iadd(off, ln), L)))
        if not isinstance(nil, bool):
            self.ctx.axiom(bimp(nil, ieq(ln, 0)))
        return Slice(oid, off, ln, isub(keep(L), off), nil, et)

    def fresh_value(self, st, t, base):
        c = self.ctx

        def gen(path, sort):
            if path.endswith('.o') and sort == INT:
                return 0
            v = c.fresh(base + path, sort)
            if path.endswith('.l') and sort == INT:
                c.axiom(v >= 0)
            return v
        return self.build(st, t, gen)

    # ------------------------------------------------------------ flattening for UFs
    def flat(self, st, v, t):
        """list of z3 terms that determine the value v of type t"""
        k = self.kind(t)
        if k[0] in ('int', 'bv', 'bool'):
            if isinstance(v, Opaque):
                raise Unsupported('opaque argument')
            return [z(v)]
        if k[0] in ('string', 'slice'):
            r = v.rope if isinstance(v, (Str, Frozen)) else self.content(st, v)
            q, o, l = self.as_window(st, r, k[1] if k[0] == 'slice' else 'uint8')
            return [q, z(o), z(l)]
        if k[0] == 'array':
            return [x for e in v.f for x in self.flat(st, e, k[1])]
        if k[0] == 'struct':
            if isinstance(v, Opaque):
                raise Unsupported('opaque argument')
            return [x for e, f in zip(v.f, k[1]) for x in self.flat(st, e, f)]
        if k[0] == 'iface':
            return [self.iface_term(st, v)]
        raise Unsupported('flatten ' + t)

    def iface_term(self, st, v):
        if isinstance(v, SymIface):
            return v.term
        if v.t is None:
            c = self.uf('nil!I', IF)
            self.ctx.axiom(tid_fn(c) == 0)
            return c
        if isinstance(v.v, Opaque):
            raise Unsupported('opaque interface')
        leaves = self.flat(st, v.v, v.t)
        ct = self.T.canon(v.t)
        # payload windows are normalised to (q,o,l)
        m = self.app('mkI<%s>' % ct, leaves, IF)
        self.ctx.axiom(tid_fn(m) == self.T.tid(v.t))
        for i, l in enumerate(leaves):
            self.ctx.axiom(self.app('unI<%s>%d' % (ct, i), [m], l.sort()) == l)
        return m

    def iface_payload(self, st, term, t):
        """payload of symbolic interface `term` known to hold type t"""
        ct = self.T.canon(t)
        n = itertools.count()
        leaves2 = []

        def rec2(t):
            k = self.kind(t)
            if k[0] in ('int', 'bv', 'bool'):
                x = self.app('unI<%s>%d' % (ct, next(n)), [term], self.sort(t))
                leaves2.append(x)
                return x
            if k[0] in ('string', 'slice'):
                i0 = next(n)
                i1 = next(n)
                i2 = next(n)
                q = self.app('unI<%s>%d' % (ct, i0), [term], Q)
                o = self.app('unI<%s>%d' % (ct, i1), [term], INT)
                l = self.app('unI<%s>%d' % (ct, i2), [term], INT)
                leaves2.extend([q, o, l])
                self.ctx.axiom(band(l >= 0, o >= 0, o + l <= qlen(q)))
                if k[0] == 'string':
                    return Str(rope_norm((S(q, o, l),)))
                nil = self.app('nilI<%s>%d' % (ct, i0), [term], BOOL)
                return self.ext_slice(st, q, o, l, nil, k[1])
            if k[0] == 'array':
                return Arr([rec2(k[1]) for _ in range(k[2])])
            if k[0] == 'struct':
                return Struct([rec2(f) for f in k[1]])
            if k[0] == 'iface':
                x = self.app('unI<%s>%d' % (ct, next(n)), [term], IF)
                leaves2.append(x)
                return SymIface(x)
            raise Unsupported('interface payload ' + t)
        v = rec2(t)
        m = self.app('mkI<%s>' % ct, leaves2, IF)
        self.ctx.axiom(z3.Implies(tid_fn(term) == self.T.tid(t), m == term))
        self.ctx.axiom(tid_fn(m) == self.T.tid(t))
        return v

    # ------------------------------------------------------------ ropes with definitions
    def as_window(self, st, rope, et):
        """(q, off, len) denoting the rope's content"""
        rope = rope_norm(rope)
        if not rope:
            return self.uf('empty!Q', Q), 0, 0
        if len(rope) == 1 and rope[0][0] == 'S':
            return rope[0][1], rope[0][2], rope[0][3]
        # intern as a function of its leaf terms
        leaves = []
        skel = []
        for c in rope:
            if c[0] == 'S':
                skel.append('S')
                leaves += [c[1], z(c[2]), z(c[3])]
            else:
                ls = self.flat(st, c[1], et)
                skel.append('U')
                leaves += ls
        # constants are folded into the name so that ropes with equal literals coincide
        name = 'rope<%s>%s' % (self.T.canon(et), ''.join(skel))
        name += '/' + ','.join(str(l.sort()) for l in leaves)
        self.qkinds[name] = ('rope', tuple(skel), et)
        q = self.app(name, leaves, Q)
        n = rope_len(rope)
        self.ctx.axiom(qlen(q) == z(n))
        return q, 0, n

    def qdef(self, q):
        d = q.decl().name()
        k = self.qkinds.get(d)
        return k

    def at(self, st, q, i, et):
        """element i of sequence term q"""
        d = self.qdef(q)
        if d is not None:
            if d[0] == 'rope':
                return self.rope_at(st, self.rope_of(st, q, d), i, et)
            if d[0] == 'const':
                bs = d[1]
                if isinstance(i, int):
                    return keep(z3.BitVecVal(bs[i], 8))
                if len(bs) <= 64:
                    return self.select([z3.BitVecVal(b, 8) for b in bs], i)
            if d[0] == 'zeros':
                return self.zero(et)
            if d[0] == 'fm':
                r = self.fm_at(st, q, d, i, et)
                if r is not None:
                    return r
            if d[0] == 'dec':
                x = self.elem(st, 'at<%s>' % self.T.canon(et), q, i, et)
                self.ctx.axiom(z3.Implies(z3.And(z(i) >= 0, z(i) < qlen(q)), z3.Or(z3.And(z3.UGE(x, 48), z3.ULE(x, 57)), z3.And(x == 45, z(i) == 0, q.arg(0) < 0))))
                return x
        name = 'at<%s>' % self.T.canon(et)
        return self.elem(st, name, q, i, et)

    def select(self, vals, i):
        """vals[i] for a symbolic index"""
        b = i.arg(0) if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_BV2INT else None
        r = vals[-1]
        for n in range(len(vals) - 2, -1, -1):
            if b is not None:
                if n >= 1 << b.size():
                    continue
                c = b == n
            else:
                c = i == n
            r = z3.If(c, vals[n], r)
        return keep(r)

    def elem(self, st, name, q, i, et):
        k = self.kind(et)

        def gen(path, sort):
            if path.endswith('.o') and sort == INT:
                return 0
            x = self.app(name + path, [q, i], sort)
            return x
        return self.build(st, et, gen)

    def rope_of(self, st, q, d):
        args = q.children()
        out = []
        p = 0
        for c in d[1]:
            if c == 'S':
                o, l = args[p + 1], args[p + 2]
                out.append(S(args[p], isimp(o), isimp(l)))
                p += 3
            else:
                v, p = self.unflat(st, d[2], args, p)
                out.append(U(v))
        return tuple(out)

    def unflat(self, st, t, args, p):
        k = self.kind(t)
        if k[0] == 'int':
            return isimp(args[p]), p + 1
        if k[0] == 'bool':
            return bsimp(args[p]), p + 1
        if k[0] == 'bv':
            return args[p], p + 1
        if k[0] == 'string':
            return Str(rope_norm((S(args[p], isimp(args[p + 1]), isimp(args[p + 2])),))), p + 3
        if k[0] == 'slice':
            nil = self.app('nilq', [args[p], args[p + 1], args[p + 2]], BOOL)
            return self.ext_slice(st, args[p], isimp(args[p + 1]), isimp(args[p + 2]), nil, k[1]), p + 3
        if k[0] == 'array':
            r = []
            for _ in range(k[2]):
                v, p = self.unflat(st, k[1], args, p)
                r.append(v)
            return Arr(r), p
        if k[0] == 'struct':
            r = []
            for f in k[1]:
                v, p = self.unflat(st, f, args, p)
                r.append(v)
            return Struct(r), p
        if k[0] == 'iface':
            return SymIface(args[p]), p + 1
        raise Unsupported('unflatten ' + t)

    def const_q(self, bs):
        name = 'lit:' + bs.hex()
        self.qkinds[name] = ('const', bs)
        q = self.uf(name, Q)
        self.ctx.axiom(qlen(q) == len(bs))
        return q

    def const_rope(self, bs):
        if len(bs) <= 16:
            return tuple(U(keep(z3.BitVecVal(b, 8))) for b in bs)
        return (S(self.const_q(bs), 0, len(bs)),)

    def zeros_rope(self, et, n):
        if isinstance(n, int) and n <= 64:
            return tuple(U(self.zero(et)) for _ in range(n))
        name = 'zeros<%s>' % self.T.canon(et)
        self.qkinds[name] = ('zeros', et)
        q = self.uf(name, Q)
        return (S(q, 0, n),)

    def rope_at(self, st, rope, i, et):
        pos = 0
        if not isinstance(i, int) and 1 < len(rope) <= 64 and all(c[0] == 'U' and z3.is_expr(c[1]) and z3.is_bv(c[1]) for c in rope):
            return self.select([c[1] for c in rope], i)
        for n, c in enumerate(rope):
            l = chunk_len(c)
            end = iadd(pos, l)
            inside = ilt(i, end)
            if n == len(rope) - 1:
                inside = True
            if not isinstance(inside, bool):
                inside = self.decide(st, inside)
            if inside:
                if c[0] == 'U':
                    return c[1]
                return self.at(st, c[1], iadd(c[2], isub(i, pos)), et)
            pos = end
        raise Unsupported('index into empty sequence')

    def rope_slice(self, st, rope, lo, hi):
        """content of rope[lo:hi] (0<=lo<=hi<=len assumed)"""
        total = rope_len(rope)
        if isinstance(lo, int) and lo == 0 and same(hi, total):
            return rope
        if len(rope) == 1 and rope[0][0] == 'S':
            c = rope[0]
            return rope_norm((S(c[1], iadd(c[2], lo), isub(hi, lo)),))
        out = []
        pos = 0
        toend = same(hi, total)
        started = False
        for c in rope:
            l = chunk_len(c)
            end = iadd(pos, l)
            # drop if end <= lo (an empty window at lo may stay)
            started = started or same(pos, lo) or self.rewrites and self.valid(st, ieq(pos, lo))
            d = False if started else ile(end, lo)
            if not isinstance(d, bool):
                d = self.decide(st, d)
            if d:
                pos = end
                continue
            if started and toend:
                out.append(c)
                pos = end
                continue
            # stop if pos >= hi
            d = ile(hi, pos)
            if not isinstance(d, bool):
                d = self.decide(st, d)
            if d:
                break
            if c[0] == 'U':
                out.append(c)
            else:
                a = ile(lo, pos)
                if not isinstance(a, bool):
                    a = self.decide(st, a)
                s = 0 if a else isub(lo, pos)
                b = ile(end, hi)
                if not isinstance(b, bool):
                    b = self.decide(st, b)
                e = l if b else isub(hi, pos)
                out.append(S(c[1], iadd(c[2], s), isub(e, s)))
            pos = end
        return rope_norm(out)

    def content(self, st, s):
        """rope with the elements of slice s"""
        if isinstance(s, Frozen):
            return s.rope
        if s.obj is None:
            return ()
        o = st.heap[s.obj]
        if o.kind != 'arr':
            raise Unsupported('slice of ' + o.kind)
        if o.bad is not None:
            end = iadd(s.off, s.ln)
            if not self.valid(st, ile(end, o.bad)):
                raise Unsupported('content of an array that may have been overwritten')
        return self.rope_slice(st, o.v, s.off, iadd(s.off, s.ln))

    def mkslice(self, st, rope, et, cap=None):
        rope = rope_norm(rope)
        o = self.newobj(st, Obj('arr', rope, et=et))
        n = rope_len(rope)
        return Slice(o, 0, n, cap, False, et)

    # ------------------------------------------------------------ flat-map sequences and sums
    def canon_terms(self, terms, k, skip=()):
        """replace k and the free constants by formals; returns (terms', params)"""
        params = []
        seen = {c.get_id(): c for c in skip}
        for t in terms:
            for i, c in free_consts(t).items():
                if c.eq(k) or i in seen:
                    continue
                nm = c.decl().name()
                if nm in self.qkinds or nm.startswith('lit:') or nm.startswith('zeros<') or nm in ('empty!Q', 'nil!I'):
                    continue
                seen[i] = c
                params.append(c)
        subs = [(k, z3.Int('fk!'))]
        for n, p in enumerate(params):
            subs.append((p, z3.Const('fp!%d!%s' % (n, p.sort()), p.sort())))
        out = [keep(z3.substitute(z(t), *subs)) for t in terms]
        return out, params

    def formals(self, args):
        return [z3.Const('fp!%d!%s' % (n, p.sort()), p.sort()) for n, p in enumerate(args)]

    def sum_def(self, k, cases):
        """prefix sum function of cases [(cond, int term)] over index k -> f(k) builder"""
        terms = []
        for c, e in cases:
            terms += [z(c), z(e)]
        ts, params = self.canon_terms(terms, k)
        key = tuple(t.get_id() for t in ts)
        name = self.ctx.sumcache.get(key)
        if name is None:
            name = 'sum#%d' % len(self.ctx.sumcache)
            self.ctx.sumcache[key] = name
            self.sums[name] = [(ts[i], ts[i + 1]) for i in range(0, len(ts), 2)]
        return name, params

    def sum_at(self, name, params, n):
        if isinstance(n, int) and n == 0:
            return 0
        return self.app(name, list(params) + [n], INT)

    def sum_body(self, name, params, j):
        """value of the summand at j (an ite term)"""
        subs = list(zip(self.formals(params), params)) + [(z3.Int('fk!'), z(j))]
        cases = self.sums[name]
        r = None
        for c, e in reversed(cases):
            cc = z3.substitute(c, *subs)
            ee = z3.substitute(e, *subs)
            r = ee if r is None else z3.If(cc, ee, r)
        return isimp(r)

    def sum_step(self, name, params, n):
        """axiom  sum(n+1) = sum(n) + body(n)  for n>=0"""
        self.ctx.axiom(z3.Implies(z(n) >= 0, self.sum_z(name, params, iadd(n, 1)) == self.sum_z(name, params, n) + z(self.sum_body(name, params, n))))

    # recurrences: vectors x(0) = x0, x(k+1) = step(x(k), k)
    def rec_at(self, name, i, params, n):
        inits, steps, sorts = self.ctx.recs[name]
        subs = list(zip(self.formals(params), params))
        x = self.app('%s.%d' % (name, i), list(params) + [n], sorts[i])
        self.ctx.axiom(self.app('%s.%d' % (name, i), list(params) + [0], sorts[i]) == z3.substitute(inits[i], *subs))
        return x

    def rec_body(self, name, params, j, cur=None):
        """values at j+1 in terms of the values at j"""
        inits, steps, sorts = self.ctx.recs[name]
        if cur is None:
            cur = [self.rec_at(name, i, params, j) for i in range(len(sorts))]
        subs = list(zip(self.formals(params), params)) + [(z3.Int('fk!'), z(j))]
        subs += [(z3.Const('fr!%d!%s' % (n, s), s), z(c)) for n, (s, c) in enumerate(zip(sorts, cur))]
        return [keep(z3.simplify(z3.substitute(t, *subs))) for t in steps]

    def rec_step(self, name, params, n):
        sorts = self.ctx.recs[name][2]
        for i, b in enumerate(self.rec_body(name, params, n)):
            nx = self.app('%s.%d' % (name, i), list(params) + [iadd(n, 1)], sorts[i])
            self.ctx.axiom(z3.Implies(z(n) >= 0, nx == b))

    def sum_z(self, name, params, n):
        return z(self.sum_at(name, params, n))

    def sum_terms(self, terms):
        out = {}
        seen = set()
        stack = [t for t in terms if z3.is_expr(t)]
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in seen or not z3.is_app(e):
                continue
            seen.add(i)
            if e.num_args():
                if e.decl().name() in self.sums:
                    out[i] = e
                stack.extend(e.children())
        return list(out.values())

    def sum_lemmas(self, st, goal):
        """equalities between different prefix sums that agree pointwise"""
        ts = self.sum_terms(list(st.pc) + [goal])
        if len(ts) < 1:
            return False
        added = False
        memo = st.flags.setdefault('sumlem', frozenset())
        done = set(memo)
        for t in ts:
            # non-negativity and divisibility by 4
            nm = t.decl().name()
            args = t.children()
            key = ('m', t.get_id())
            if key in done:
                continue
            done.add(key)
            n = args[-1]
            j = self.ctx.fresh_int('sj')
            st2 = st.clone()
            st2.assume(bsimp(j >= 0))
            st2.assume(bsimp(j < n))
            st2.kappas.append(j)
            b = self.sum_body(nm, args[:-1], j)
            self.scan_ens(st2, [z(b)])
            self.inst_facts(st2, [])
            if self.valid(st2, ile(0, b)):
                st.assume(bsimp(z3.Implies(n >= 0, t >= 0)))
                added = True
                if self.valid(st2, ile(2, b)):
                    st.assume(bsimp(z3.Implies(n >= 0, t >= 2 * n)))
                elif self.valid(st2, ile(1, b)):
                    st.assume(bsimp(z3.Implies(n >= 0, t >= n)))
            if self.valid(st2, bsimp(z(b) % 4 == 0)):
                st.assume(bsimp(z3.Implies(n >= 0, t % 4 == 0)))
                added = True
        for a, b in itertools.combinations(ts, 2):
            if a.decl().name() == b.decl().name():
                if self.rewrites:
                    added |= self.sum_mono(st, a, b, done)
                continue
            key = (a.get_id(), b.get_id())
            if key in done:
                continue
            done.add(key)
            n, m = a.children()[-1], b.children()[-1]
            if not self.valid(st, ieq(n, m)):
                continue
            j = self.ctx.fresh_int('sj')
            st2 = st.clone()
            st2.assume(bsimp(j >= 0))
            st2.assume(bsimp(j < n))
            st2.kappas.append(j)
            x = self.sum_body(a.decl().name(), a.children()[:-1], j)
            y = self.sum_body(b.decl().name(), b.children()[:-1], j)
            self.scan_ens(st2, [z(x), z(y)])
            self.inst_facts(st2, [])
            if self.valid(st2, ieq(x, y)):
                st.assume(bsimp(a == b))
                added = True
        st.flags['sumlem'] = frozenset(done)
        return added

    def sum_mono(self, st, a, b, done):
        """prefix sums of the same non-negative terms are ordered like their bounds"""
        x, y = a.children(), b.children()
        if any(not s.eq(t) for s, t in zip(x[:-1], y[:-1])):
            return False
        added = False
        for lo, hi, s, t in ((x[-1], y[-1], a, b), (y[-1], x[-1], b, a)):
            key = ('mono', s.get_id(), t.get_id())
            if key in done or not self.valid(st, band(ile(0, lo), ile(lo, hi))):
                continue
            done.add(key)
            j = self.ctx.fresh_int('sj')
            st2 = st.clone()
            st2.assume(bsimp(j >= 0))
            st2.assume(bsimp(j < hi))
            st2.kappas.append(j)
            c = self.sum_body(a.decl().name(), x[:-1], j)
            self.scan_ens(st2, [z(c)])
            self.inst_facts(st2, [])
            if self.valid(st2, ile(1, c)):
                st.assume(bsimp(t - s >= hi - lo))
                added = True
            elif self.valid(st2, ile(0, c)):
                st.assume(bsimp(t >= s))
                added = True
        return added

    def fm_def(self, st, k, cases, et):
        """sequence  body(0) ++ body(1) ++ ...  ; cases: [(cond, rope)]; returns (qname, params)"""
        terms = []
        shape = []
        for c, r in cases:
            terms.append(z(c))
            sh = []
            for ch in r:
                if ch[0] == 'S':
                    sh.append('S')
                    terms += [ch[1], z(ch[2]), z(ch[3])]
                else:
                    ls = self.flat(st, ch[1], et)
                    sh.append('U')
                    terms += ls
            shape.append(''.join(sh))
        ts, params = self.canon_terms(terms, k)
        key = (self.T.canon(et), tuple(shape), tuple(t.get_id() for t in ts))
        name = self.ctx.fmcache.get(key)
        lens = [rope_len(r) for _, r in cases]
        w = lens[0] if all(isinstance(x, int) and x == lens[0] for x in lens) else None
        if name is None:
            name = 'fm#%d' % len(self.ctx.fmcache)
            self.ctx.fmcache[key] = name
            # sum for lengths
            sname = None
            if w is None:
                sname, sparams = self.sum_def(k, [(c, rope_len(r)) for c, r in cases])
            sp = None
            if sname is not None:
                # express the sum's params through the fm's params
                idx = []
                for p in sparams:
                    for n, pp in enumerate(params):
                        if pp.eq(p):
                            idx.append(n)
                            break
                    else:
                        raise Unsupported('sum parameter')
                sp = tuple(idx)
            self.qkinds[name] = ('fm', tuple(shape), ts, et, w, sname, sp)
        return name, params

    def fm_q(self, name, params):
        return self.app(name, list(params), Q)

    def fm_off(self, q, n):
        """offset of element group n in fm sequence q"""
        d = self.qdef(q)
        w, sname, sp = d[4], d[5], d[6]
        if w is not None:
            return imul(w, n)
        params = q.children()
        return self.sum_at(sname, [params[i] for i in sp], n)

    def fm_step(self, q, n):
        d = self.qdef(q)
        if d[4] is None:
            params = q.children()
            self.sum_step(d[5], [params[i] for i in d[6]], n)

    def fm_body(self, st, q, j):
        """rope of element group j (may fork on the case)"""
        d = self.qdef(q)
        shape, ts, et = d[1], d[2], d[3]
        params = q.children()
        subs = list(zip(self.formals(params), params)) + [(z3.Int('fk!'), z(j))]
        p = 0
        ncase = len(shape)
        res = None
        for n, sh in enumerate(shape):
            cond = bsimp(z3.substitute(ts[p], *subs))
            p += 1
            size = 0
            # size of this case in terms
            args = []
            pp = p
            out = []
            for c in sh:
                if c == 'S':
                    a = [z3.substitute(x, *subs) for x in ts[pp:pp + 3]]
                    out.append(S(keep(a[0]), isimp(a[1]), isimp(a[2])))
                    pp += 3
                else:
                    m = self.flat_size(et)
                    a = [keep(z3.simplify(z3.substitute(x, *subs))) for x in ts[pp:pp + m]]
                    v, _ = self.unflat(st, et, a, 0)
                    out.append(U(v))
                    pp += m
            last = n == ncase - 1
            ok = True if last else (cond if isinstance(cond, bool) else self.decide(st, cond))
            if ok:
                for c in out:
                    if c[0] == 'S':
                        self.scan_ens(st, [c[1], z(c[3])])
                return rope_norm(out)
            p = pp
        raise Unsupported('flat-map case')

    def flat_size(self, t):
        k = self.kind(t)
        if k[0] in ('int', 'bv', 'bool', 'iface'):
            return 1
        if k[0] in ('string', 'slice'):
            return 3
        if k[0] == 'array':
            return k[2] * self.flat_size(k[1])
        if k[0] == 'struct':
            return sum(self.flat_size(f) for f in k[1])
        raise Unsupported('flat size ' + t)

    def fm_at(self, st, q, d, i, et):
        w = d[4]
        if w == 0:
            return None
        if w is None:
            # first element of a group that is not empty
            if isinstance(i, int) and i == 0:
                j = 0
            elif z3.is_app(i) and i.decl().name() == d[5]:
                j = isimp(i.children()[-1])
            else:
                return None
            body = self.fm_body(st, q, j)
            if body and (body[0][0] == 'U' or self.valid(st, ilt(0, body[0][3]))):
                return self.rope_at(st, body, 0, et)
            return None
        s = lin_split(i, w)
        if s is None:
            return None
        body = self.fm_body(st, q, s[0])
        return self.rope_at(st, body, s[1], et)

    # ------------------------------------------------------------ equality proofs
    def prove_eq(self, st, a, b, t):
        """prove equality of two values of type t; False if it cannot be proved"""
        k = self.kind(t)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return a is b
        if k[0] in ('int', 'bv', 'bool'):
            if same(a, b):
                return True
            return self.prove(st, bsimp(z(a) == z(b)))
        if k[0] == 'string':
            return self.rope_eq(st, a.rope, b.rope, 'uint8')
        if k[0] == 'slice':
            return self.rope_eq(st, self.content(st, a), self.content(st, b), k[1])
        if k[0] == 'array':
            return all(self.prove_eq(st, x, y, k[1]) for x, y in zip(a.f, b.f))
        if k[0] == 'struct':
            if isinstance(a, Builder):
                return self.rope_eq(st, a.rope, b.rope, 'uint8')
            return all(self.prove_eq(st, x, y, f) for x, y, f in zip(a.f, b.f, k[1]))
        if k[0] == 'iface':
            return self.iface_eq(st, a, b)
        if k[0] == 'tuple':
            return all(self.prove_eq(st, x, y, f) for x, y, f in zip(a.f, b.f, k[1]))
        if k[0] == 'ptr':
            if a.obj == b.obj and a.path == b.path:
                return True
            if a.obj is None or b.obj is None:
                return False
            oa, ob = st.heap[a.obj], st.heap[b.obj]
            if oa.kind == 'cell' and ob.kind == 'cell' and not a.path and not b.path:
                return self.prove_eq(st, oa.v, ob.v, k[1])
            return False
        if k[0] == 'func':
            return vkey(a) == vkey(b)
        raise Unsupported('equality at ' + t)

    def iface_eq(self, st, a, b):
        if isinstance(a, SymIface) and isinstance(b, SymIface) and a.term.eq(b.term):
            return True
        if isinstance(a, Iface) and isinstance(b, Iface):
            if (a.t is None) or (b.t is None):
                return a.t is None and b.t is None
            if self.T.canon(a.t) != self.T.canon(b.t):
                return False
            return self.prove_eq(st, a.v, b.v, a.t)
        if isinstance(a, SymIface) and isinstance(b, SymIface):
            if self.prove(st, bsimp(a.term == b.term)):
                return True
            return False
        if isinstance(b, SymIface):
            a, b = b, a
        # a symbolic, b concrete
        if b.t is None:
            return self.prove(st, bsimp(tid_fn(a.term) == 0))
        if not self.prove(st, bsimp(tid_fn(a.term) == self.T.tid(b.t))):
            return False
        return self.prove_eq(st, self.iface_payload(st, a.term, b.t), b.v, b.t)

    def rope_eq(self, st, r1, r2, et, depth=0):
        a, b = list(rope_norm(r1)), list(rope_norm(r2))
        steps = 0
        while a or b:
            steps += 1
            if steps > 400:
                return False
            if not a or not b:
                rest = a or b
                n = rope_len(tuple(rest))
                if self.prove(st, ieq(n, 0)):
                    return True
                c = rest[0]
                if c[0] == 'S':
                    x = self.expand(st, c, depth)
                    if x is not None:
                        rest[0:1] = list(x)
                        continue
                return False
            x, y = a[0], b[0]
            if x[0] == 'U' and y[0] == 'U':
                if not self.prove_eq(st, x[1], y[1], et):
                    return False
                a.pop(0)
                b.pop(0)
                continue
            if x[0] == 'S' and y[0] == 'S':
                if x[1].eq(y[1]) or self.valid(st, bsimp(x[1] == y[1])):
                    if self.prove(st, ieq(x[2], y[2])):
                        if same(x[3], y[3]) or self.prove(st, ieq(x[3], y[3])):
                            a.pop(0)
                            b.pop(0)
                            continue
                        if self.decide(st, ile(x[3], y[3])):
                            a.pop(0)
                            b[0] = S(y[1], iadd(y[2], x[3]), isub(y[3], x[3]))
                        else:
                            b.pop(0)
                            a[0] = S(x[1], iadd(x[2], y[3]), isub(x[3], y[3]))
                        continue
                # different sequences: whole flat-maps
                r = self.fm_match(st, x, y, et, depth)
                if r:
                    a.pop(0)
                    b.pop(0)
                    continue
                # empty windows
                if self.prove(st, ieq(x[3], 0)):
                    a.pop(0)
                    continue
                if self.prove(st, ieq(y[3], 0)):
                    b.pop(0)
                    continue
                ex = self.expand(st, x, depth)
                if ex is not None:
                    a[0:1] = list(ex)
                    continue
                ey = self.expand(st, y, depth)
                if ey is not None:
                    b[0:1] = list(ey)
                    continue
                # pointwise, same length
                if self.prove(st, ieq(x[3], y[3])):
                    if self.pointwise(st, x, y, et):
                        a.pop(0)
                        b.pop(0)
                        continue
                    return False
                return False
            # unit against window
            if x[0] == 'S':
                w, u, ws, us = x, y, a, b
            else:
                w, u, ws, us = y, x, b, a
            if self.prove(st, ieq(w[3], 0)):
                ws.pop(0)
                continue
            ex = self.expand(st, w, depth)
            if ex is not None:
                ws[0:1] = list(ex)
                continue
            if not self.decide(st, ilt(0, w[3])):
                ws.pop(0)
                continue
            v = self.at(st, w[1], w[2], et)
            if not self.prove_eq(st, v, u[1], et):
                return False
            us.pop(0)
            ws[0] = S(w[1], iadd(w[2], 1), isub(w[3], 1))
        return True

    def pointwise(self, st, x, y, et):
        j = self.ctx.fresh_int('pj')
        st2 = st.clone()
        st2.kappas.append(j)
        st2.assume(bsimp(z3.And(j >= 0, z(ilt(j, x[3])))))

        def task(s):
            if s.facts:
                self.inst_facts(s, [])
            u = self.at(s, x[1], iadd(x[2], j), et)
            v = self.at(s, y[1], iadd(y[2], j), et)
            return self.prove_eq(s, u, v, et)
        return self.forall_paths(st2, task)

    def forall_paths(self, st, task, limit=64):
        """run task under forks; True iff every feasible branch returns True"""
        work = [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > limit:
                return False
            try:
                if not task(s):
                    return False
            except Fork as f:
                s2 = s.clone()
                try:
                    s.assume(f.cond)
                    work.append(s)
                except Dead:
                    pass
                try:
                    s2.assume(bnot(f.cond))
                    work.append(s2)
                except Dead:
                    pass
            except Dead:
                pass
        return True

    def fm_match(self, st, x, y, et, depth):
        """two flat-map windows of whole groups that agree group by group"""
        dx, dy = self.qdef(x[1]), self.qdef(y[1])
        if not (dx and dy and dx[0] == 'fm' and dy[0] == 'fm'):
            return False
        gx, gy = self.fm_groups(st, x), self.fm_groups(st, y)
        if gx is None or gy is None:
            return False
        n = isub(gx[1], gx[0])
        m = isub(gy[1], gy[0])
        if not self.prove(st, ieq(n, m)):
            return False
        j = self.ctx.fresh_int('fj')
        st2 = st.clone()
        st2.kappas.append(j)
        st2.assume(bsimp(z3.And(j >= 0, z(ilt(j, n)))))

        def task(s):
            if s.facts:
                self.inst_facts(s, [])
            return self.rope_eq(s, self.fm_body(s, x[1], iadd(gx[0], j)), self.fm_body(s, y[1], iadd(gy[0], j)), et, depth + 1)
        if self.forall_paths(st2, task):
            st.assume(bsimp(z(x[3]) == z(y[3])))
            return True
        return False

    def fm_groups(self, st, c):
        """(i, n) such that the window is groups [i,n)"""
        d = self.qdef(c[1])
        w = d[4]
        if same(c[2], 0):
            n = self.fm_count(c)
            if n is not None:
                return 0, n
        j = self.fm_start(c)
        if j is None or w == 0:
            return None
        if w is not None:
            s = lin_split(c[3], w)
            return None if s is None or s[1] != 0 else (j, iadd(j, s[0]))
        end = iadd(c[2], c[3])
        if isinstance(end, int):
            return (j, j) if same(c[3], 0) else None
        for t in self.sum_terms([end]):
            if t.decl().name() == d[5]:
                e = isimp(t.children()[-1])
                if not same(e, j) and self.valid(st, ieq(end, self.fm_off(c[1], e))):
                    return j, e
        return None

    def fm_start(self, c):
        """the group at which the window starts, or None"""
        d = self.qdef(c[1])
        w, o = d[4], c[2]
        if w is not None:
            s = lin_split(o, w) if w else None
            return None if s is None or s[1] != 0 else s[0]
        if isinstance(o, int):
            return 0 if o == 0 else None
        if z3.is_app(o) and o.decl().name() == d[5]:
            return isimp(o.children()[-1])
        return None

    def fm_count(self, c):
        """n such that the window is groups [0,n)"""
        d = self.qdef(c[1])
        w = d[4]
        if w is not None:
            if w == 0:
                return None
            s = lin_split(c[3], w)
            if s is None or s[1] != 0:
                return None
            return s[0]
        l = c[3]
        if isinstance(l, int):
            return 0 if l == 0 else None
        if z3.is_app(l) and l.decl().name() == d[5]:
            return isimp(l.children()[-1])
        return None

    def expand(self, st, c, depth):
        """replace a defined window by its definition (or None)"""
        if depth > 6:
            return None
        d = self.qdef(c[1])
        if d is None:
            return None
        if d[0] == 'rope':
            r = self.rope_of(st, c[1], d)
            return self.rope_slice(st, r, c[2], iadd(c[2], c[3]))
        if d[0] == 'const' and isinstance(c[2], int) and isinstance(c[3], int):
            return tuple(U(keep(z3.BitVecVal(b, 8))) for b in d[1][c[2]:c[2] + c[3]])
        if d[0] == 'fm':
            return self.fm_expand(st, c)
        if d[0] == 'app':
            if self.can_unfold(d[1]) and same(c[2], 0) and same(c[3], isimp(qlen(c[1]))):
                return self.unfold_app(st, c[1], d)
        return None

    def fm_expand(self, st, c):
        """peel the first group of a flat-map window that starts at a group boundary"""
        d = self.qdef(c[1])
        w = d[4]
        j = self.fm_start(c)
        if j is None or w == 0 or w == 1:
            return None
        g = None
        if not self.valid(st, ilt(0, c[3])):
            g = self.fm_groups(st, c)
            if g is None or not self.valid(st, ilt(j, g[1])):
                return None
        self.fm_step(c[1], j)
        if self.rewrites and z3.is_expr(j) and not any(same(j, x) for x in st.kappas):
            st.kappas.append(j)
            self.inst_facts(st, [])
        body = self.fm_body(st, c[1], j)
        n = rope_len(body)
        nxt = self.fm_off(c[1], iadd(j, 1))
        if not self.valid(st, ile(n, c[3])):
            if isinstance(nxt, int) or not z3.is_expr(c[3]):
                return None
            if not self.rewrites and g is None:
                g = self.fm_groups(st, c)
                if g is None or not self.valid(st, ilt(j, g[1])):
                    return None
            for t in self.sum_terms([c[3]]):
                if t.decl().eq(nxt.decl()):
                    self.sum_mono(st, nxt, t, set())
            if not self.valid(st, ile(n, c[3])):
                return None
        return rope_norm(tuple(body) + (S(c[1], nxt, isub(c[3], n)),))

    # ------------------------------------------------------------ opaque spec functions
    def is_opaque(self, name):
        short = name.rsplit('.', 1)[-1]
        if not short.startswith('zo') or short.endswith('_ens'):
            return False
        if '.' not in name or not name.startswith(MOD):
            return False
        return True

    def can_unfold(self, fname):
        short = fname.rsplit('.', 1)[-1]
        return short in self.reveal or (self.reveal_all and not self.recursive(fname))

    def recursive(self, fname):
        f = self.funcs[fname]
        if '_rec' not in f:
            r = False
            for b in f['blocks']:
                for i in b['i']:
                    if i['op'] == 'Call' and i['call'].get('v') == '@f:' + fname:
                        r = True
            f['_rec'] = r
        return f['_rec']

    def opaque_result(self, st, fname, args):
        f = self.funcs[fname]
        zs = []
        for a, p in zip(args, f['params']):
            if self.kind(p['t'])[0] == 'bool' and not isinstance(a, (bool, Opaque)):
                a = self.decide(st, a)
            zs += self.flat(st, a, p['t'])
        return self.opaque_from_terms(st, fname, zs)

    def opaque_from_terms(self, st, fname, zs):
        f = self.funcs[fname]
        short = fname.rsplit('/', 1)[-1]
        self.used_opaque.add(fname)
        outs = []
        for n, rt in enumerate(f['results']):
            def gen(path, sort, n=n):
                if path.endswith('.o') and sort == INT:
                    return 0
                nm = '%s:%d%s' % (short, n, path)
                if path.endswith('.l') and sort == INT:
                    base = '%s:%d%s' % (short, n, path[:-2] + '.q')
                    return keep(qlen(self.app(base, zs, Q)))
                if path.endswith('.q') and sort == Q:
                    self.qkinds[nm] = ('app', fname, n, path)
                return self.app(nm, zs, sort)
            outs.append(self.build(st, rt, gen))
        for n, o in enumerate(outs):
            if isinstance(o, Slice):
                self.ctx.axiom(qlen(st.heap[o.obj].v[0][1]) >= 0)
        self.ensure(st, fname, zs)
        return outs[0] if len(outs) == 1 else Tup(outs)

    def ensure(self, st, fname, zs):
        """instantiate the postcondition of an opaque function as an axiom"""
        ens = fname + '_ens'
        if ens not in self.funcs:
            return
        key = (fname, tuple(x.get_id() for x in zs))
        if key in self.ctx.ensdone:
            return
        self.ctx.ensdone.add(key)
        for x in zs:
            keep(x)
        if getattr(self, 'no_ens', None) == fname:
            return
        tmpl = self.enstmpl.get(fname)
        if tmpl is None:
            tmpl = self.enstmpl[fname] = self.ens_template(fname, ens, zs)
        gs, body = tmpl
        if isinstance(body, bool):
            self.ctx.axiom(body)
            return
        r = bsimp(z3.substitute(body, *[(g, x) for g, x in zip(gs, zs)]))
        self.ctx.axiom(r)
        if z3.is_expr(r):
            self.scan_ens(st, [r])

    def ens_template(self, fname, ens, zs):
        """the postcondition of an opaque function over generic arguments"""
        f = self.funcs[fname]
        gs = [keep(self.ctx.fresh('ea', x.sort())) for x in zs]
        s = State()
        s.heap = dict(self.globals or {})
        args = []
        p = 0
        self.ctx.ensdone.add((fname, tuple(x.get_id() for x in gs)))
        for prm in f['params']:
            v, p = self.unflat(s, prm['t'], gs, p)
            args.append(v)
        r = self.opaque_from_terms(s, fname, gs)
        rs = list(r.f) if isinstance(r, Tup) else [r]
        n = self.npaths
        outs = self.call(s, ens, args + rs)
        self.npaths = n
        parts = []
        for o in outs:
            if o.kind != 'return':
                raise Unsupported('postcondition of %s panics' % fname)
            parts.append(bimp(band(*o.st.pc), o.value))
        return gs, band(*parts)

    def scan_ens(self, st, terms):
        """instantiate postconditions for opaque applications inside terms"""
        seen = set()
        stack = [t for t in terms if z3.is_expr(t)]
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in seen or not z3.is_app(e):
                continue
            seen.add(i)
            nm = e.decl().name()
            if e.num_args():
                stack.extend(e.children())
                if nm == 'dec':
                    models.dec_axioms(self, e)
                elif nm.startswith('b2i!'):
                    self.b2i_axioms(e)
                if ':' in nm and '.zo' in nm:
                    short = nm.split(':')[0]
                    fname = self.short2full(short)
                    if fname:
                        self.ensure(st, fname, e.children())
                        k = self.qkinds.get(nm)
                        if k is not None and e.sort() == Q:
                            self.ctx.axiom(qlen(e) >= 0)

    def short2full(self, short):
        m = getattr(self, '_s2f', None)
        if m is None:
            m = self._s2f = {}
            for n in self.funcs:
                if self.is_opaque(n):
                    m[n.rsplit('/', 1)[-1]] = n
        return m.get(short)

    def unfold_app(self, st, q, d):
        """definition of an opaque sequence result (forks on its cases)"""
        fname, n, path = d[1], d[2], d[3]
        zs = q.children()
        key = ('unf', q.get_id())
        f = self.funcs[fname]
        s = st.clone()
        s.frames = []
        s.cuts = []
        args = []
        p = 0
        for prm in f['params']:
            v, p = self.unflat(s, prm['t'], zs, p)
            args.append(v)
        npc = len(s.pc)
        outs = self.call(s, fname, args, force=True)
        outs = [o for o in outs if o.kind == 'return']
        if not outs:
            raise Dead()
        if len(outs) > 1:
            for o in outs:
                extra = band(*o.st.pc[npc:])
                if self.decide(st, extra):
                    break
            else:
                raise Dead()
        else:
            o = outs[0]
        for c in o.st.pc[npc:]:
            st.assume(c)
        st.facts = o.st.facts
        st.kappas = o.st.kappas
        v = o.value
        rts = f['results']
        if len(rts) > 1:
            v = v.f[n]
        t = rts[n]
        for comp in [c for c in path.split('.') if c]:
            if comp == 'q':
                break
            v = v.f[int(comp)]
        r = v.rope if isinstance(v, (Str, Frozen)) else self.content(o.st, v)
        for k2, ob in o.st.heap.items():
            if k2 not in st.heap:
                st.heap[k2] = ob
        self.ctx.axiom(True)
        st.assume(bsimp(qlen(q) == z(rope_len(r))))
        return rope_norm(r)

    # ------------------------------------------------------------ running
    def call(self, st, fname, args, force=False):
        """explore a call to completion; list of outcomes ('return'|'panic')"""
        s = st.clone()
        s.frames = []
        s.cuts = []
        self.push(s, fname, args, ('base',), force=force)
        if s.frames and s.frames[-1].kind == 'value':
            v = s.frames.pop().regs['v']
            return [Outcome('return', s, v)]
        return self.explore(s)

    def explore(self, st):
        outs = []
        work = [st]
        while work:
            s = work.pop()
            self.npaths += 1
            if self.npaths > self.maxpaths:
                raise Unsupported('too many paths')
            r = self.run(s, work)
            if r is not None:
                outs.append(r)
        return outs

    def run(self, st, work):
        """run one path until it ends; forks are pushed to work"""
        import time
        while True:
            self.nsteps += 1
            if self.nsteps > self.maxsteps:
                raise Unsupported('step budget')
            if self.deadline and self.nsteps % 256 == 0 and time.time() > self.deadline:
                raise Unsupported('time budget')
            try:
                ev = self.step(st)
            except Fork as f:
                s2 = st.clone()
                try:
                    s2.assume(bnot(f.cond))
                    work.append(s2)
                except Dead:
                    pass
                try:
                    st.assume(f.cond)
                except Dead:
                    return None
                continue
            except Dead:
                return None
            except Split as sp:
                work.extend(sp.states)
                return None
            if ev is None:
                continue
            if ev == 'end':
                return None
            return ev

    def val(self, st, fr, x):
        if isinstance(x, str):
            c = x[0]
            if c == '%':
                return fr.regs[x[1:]]
            if x.startswith('@g:'):
                return Ptr('G:' + x[3:])
            if x.startswith('@f:'):
                return Func(x[3:])
            if x.startswith('@b:'):
                return Func(x)
        if isinstance(x, dict):
            return self.const(x)
        raise Unsupported('value %r' % (x,))

    def const(self, x):
        v = x.get('_v', self)
        if v is not self:
            return v
        t = x['t']
        k = self.kind(t)
        if 's' in x:
            r = Str(self.const_rope(bytes.fromhex(x['s'])))
        elif 'i' in x:
            n = int(x['i'])
            r = n if k[0] == 'int' else keep(z3.BitVecVal(n, k[1])) if k[0] == 'bv' else None
            if r is None:
                if k[0] == 'other':
                    r = Opaque('float')
                else:
                    raise Unsupported('const %r' % x)
        elif 'c' in x and x['c'] is not None:
            r = bool(x['c'])
        elif 'c' in x:
            r = self.zero(t)
        else:
            raise Unsupported('const %r' % x)
        if 's' not in x:
            x['_v'] = r
        return r

    def step(self, st):
        fr = st.frames[-1]
        ins = fr.fn['blocks'][fr.blk]['i'][fr.ip]
        return getattr(self, 'op_' + ins['op'], self.op_unsupported)(st, fr, ins)

    def op_unsupported(self, st, fr, ins):
        raise Unsupported('instruction %s in %s' % (ins['op'], fr.fn['name']))

    def set(self, fr, ins, v):
        fr.regs[ins['n']] = v
        fr.ip += 1

    # ---- control flow
    def goto(self, st, fr, target):
        loops = loops_of(fr.fn)
        depth = len(st.frames)
        src = fr.blk
        # leaving loops
        for h in list(fr.loops):
            if target not in loops[h]:
                if st.cuts and st.cuts[-1][0] == depth and st.cuts[-1][1] == h:
                    return Outcome('exit', st)
                del fr.loops[h]
        if target in loops:
            inside = src in loops[target]
            if not inside and st.flags.get('peeled'):
                st.flags['peeled'] = st.flags['peeled'] - {(fr.fn['name'], target, depth)}
            if inside and target in fr.loops:
                mode = fr.loops[target]
                if mode == 'probe':
                    vals = self.phi_vals(st, fr, target, src)
                    return Outcome('back', st, vals)
                if mode == 'final':
                    return 'end'
                # unrolled
                fr.loops[target] = mode + 1
                if mode > 600:
                    raise Unsupported('unroll limit')
            return self.enter_loop(st, fr, target, src)
        self.jump(st, fr, target, src)

    def phi_vals(self, st, fr, target, src):
        blk = fr.fn['blocks'][target]
        pi = blk['p'].index(src)
        vals = {}
        for ins in blk['i']:
            if ins['op'] != 'Phi':
                break
            vals[ins['n']] = self.val(st, fr, ins['e'][pi])
        return vals

    def jump(self, st, fr, target, src):
        vals = self.phi_vals(st, fr, target, src)
        fr.regs.update(vals)
        fr.prev = src
        fr.blk = target
        n = 0
        for ins in fr.fn['blocks'][target]['i']:
            if ins['op'] != 'Phi':
                break
            n += 1
        fr.ip = n

    def enter_loop(self, st, fr, h, src):
        """decide between unrolling (guard syntactically constant) and summarising"""
        self.guard_term = None
        g = self.peek_guard(st, fr, h, src)
        if g is not None:
            if h not in fr.loops or not isinstance(fr.loops[h], int):
                fr.loops[h] = 0
            self.jump(st, fr, h, src)
            return None
        key = (fr.fn['name'], h, len(st.frames))
        if key in st.flags.get('nosum', ()):
            return loops.unroll(self, st, fr, h, src, 'unrolling limit')
        if self.guard_term is not None and self.short_loop(st, self.guard_term):
            return loops.unroll(self, st, fr, h, src, 'unrolling limit')
        return loops.summarize(self, st, fr, h, src)

    def short_loop(self, st, g):
        """the exit test compares integers at most 8 apart: few iterations"""
        if z3.is_not(g):
            g = g.arg(0)
        if not z3.is_app(g) or g.num_args() != 2 or g.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or not z3.is_int(g.arg(0)):
            return False
        d = isub(g.arg(0), g.arg(1))
        return self.valid(st, ile(d, 8)) and self.valid(st, ile(-8, d))

    def peek_guard(self, st, fr, h, src):
        """constant truth value of the loop's exit test in the header, or None"""
        s = st.clone()
        f = s.frames[-1]
        try:
            self.jump(s, f, h, src)
            blk = f.fn['blocks'][h]
            while True:
                ins = blk['i'][f.ip]
                if ins['op'] == 'If':
                    c = self.val(s, f, ins['x'])
                    if not isinstance(c, bool):
                        self.guard_term = c
                    return c if isinstance(c, bool) else None
                if ins['op'] in ('Jump', 'Return', 'Panic', 'Call'):
                    if ins['op'] == 'Call' and ins['call'].get('v') == '@b:len':
                        pass
                    else:
                        return None
                d = len(s.frames)
                self.step(s)
                if len(s.frames) != d:
                    return None
        except (Fork, Dead, Unsupported):
            return None

    def op_Jump(self, st, fr, ins):
        return self.goto(st, fr, fr.fn['blocks'][fr.blk]['s'][0])

    def op_If(self, st, fr, ins):
        c = self.val(st, fr, ins['x'])
        if not isinstance(c, bool):
            d = self.decide(st, c)
            st.assume(c if d else bnot(c))
            c = d
        return self.goto(st, fr, fr.fn['blocks'][fr.blk]['s'][0 if c else 1])

    def op_Return(self, st, fr, ins):
        rs = [self.val(st, fr, x) for x in ins['r']]
        v = rs[0] if len(rs) == 1 else Tup(rs)
        return self.do_return(st, v)

    def do_return(self, st, v):
        fr = st.frames[-1]
        if st.cuts and st.cuts[-1][0] == len(st.frames):
            return Outcome('exit', st)
        st.frames.pop()
        if fr.ret[0] == 'base':
            return Outcome('return', st, v)
        par = st.frames[-1]
        if fr.ret[0] == 'reg':
            par.regs[fr.ret[1]] = v
            par.ip += 1
            return None
        if fr.ret[0] == 'defer':
            return self.after_defer(st, par)
        raise Unsupported('return mode')

    def op_Panic(self, st, fr, ins):
        v = self.val(st, fr, ins['x'])
        return self.panic(st, 'explicit panic at %s' % ins.get('pos', '?'))

    def panic(self, st, why):
        """start or continue unwinding from the top frame"""
        st.flags['panic'] = why
        while st.frames:
            fr = st.frames[-1]
            if st.cuts and st.cuts[-1][0] == len(st.frames):
                return Outcome('exit', st)
            fr.mode = 'panic'
            if fr.defers:
                return self.run_defer(st, fr)
            st.frames.pop()
            if fr.ret[0] == 'base':
                return Outcome('panic', st, None, why)
        return Outcome('panic', st, None, why)

    def run_defer(self, st, fr):
        fn, args = fr.defers.pop()
        return self.dispatch(st, fn, args, ('defer',), None)

    def after_defer(self, st, fr):
        if fr.mode == 'panic':
            if fr.defers:
                return self.run_defer(st, fr)
            return self.panic(st, st.flags.get('panic', '?'))
        if fr.mode == 'recovered':
            if fr.defers:
                return self.run_defer(st, fr)
            fr.mode = 'run'
            if fr.fn.get('recover') is None:
                # unnamed results: zero values
                rt = fr.fn['results']
                vals = [self.zero(t) for t in rt]
                return self.do_return(st, vals[0] if len(vals) == 1 else Tup(vals))
            fr.loops = {}
            self.jump_plain(fr, fr.fn['recover'])
            return None
        # normal RunDefers
        if fr.defers:
            return self.run_defer(st, fr)
        fr.ip += 1
        return None

    def jump_plain(self, fr, target):
        fr.blk = target
        fr.ip = 0

    def op_RunDefers(self, st, fr, ins):
        if fr.defers:
            return self.run_defer(st, fr)
        fr.ip += 1

    def op_Defer(self, st, fr, ins):
        c = ins['call']
        args = [self.val(st, fr, a) for a in c['args']]
        if 'invoke' in c:
            raise Unsupported('deferred interface call')
        fn = self.val(st, fr, c['v'])
        fr.defers.append((fn, args))
        fr.ip += 1

    # ---- calls
    def op_Call(self, st, fr, ins):
        c = ins['call']
        args = [self.val(st, fr, a) for a in c['args']]
        if 'invoke' in c:
            recv = self.val(st, fr, c['v'])
            return self.invoke(st, fr, ins, recv, c, args)
        fn = self.val(st, fr, c['v'])
        return self.dispatch(st, fn, args, ('reg', ins['n']), ins)

    def invoke(self, st, fr, ins, recv, c, args):
        m = c['invoke']
        if type(recv).__name__ == 'RType':
            import reflection
            return reflection.invoke(self, st, recv, m, args, ('reg', ins['n']))
        if isinstance(recv, Opaque):
            # an unknown implementation, assumed total and without effect
            self.used_models.add('interface method %s (unknown implementation: total, no effect on the program state)' % m)
            rt = self.T.t[c['sig']]['results']
            vals = [self.fresh_value(st, t, 'inv') for t in rt]
            self.set(fr, ins, vals[0] if len(vals) == 1 else Tup(vals))
            return None
        if isinstance(recv, SymIface):
            if c.get('rt') == MOD + 'logger.Log':
                self.used_models.add('logger.Log implementation: not nil, total, does not modify or retain its arguments')
                self.set(fr, ins, Tup(()))
                return None
            impls = [t for t, ms in self.methods.items() if m in ms and not t.startswith('*')]
            isz = bsimp(tid_fn(recv.term) == 0)
            if self.decide(st, isz):
                return self.panic(st, 'nil interface method call')
            for t in sorted(impls):
                if '/zz' in t:
                    continue
                if self.decide(st, bsimp(tid_fn(recv.term) == self.T.tid(t))):
                    v = self.iface_payload(st, recv.term, t)
                    return self.dispatch(st, Func(self.methods[t][m]), [v] + args, ('reg', ins['n']), ins)
            raise Unsupported('method %s of an unknown implementation' % m)
        if recv.t is None:
            return self.panic(st, 'nil interface method call at %s' % ins.get('pos', '?'))
        if isinstance(recv.v, Opaque):
            rt = self.T.t[c['sig']]['results']
            vals = [self.fresh_value(st, t, 'inv') for t in rt]
            self.set(fr, ins, vals[0] if len(vals) == 1 else Tup(vals))
            return None
        name = self.methods.get(recv.t, {}).get(m)
        if name is None:
            ct = self.T.canon(recv.t)
            for t, ms in self.methods.items():
                if self.T.canon(t) == ct and m in ms:
                    name = ms[m]
        if name is None:
            raise Unsupported('method %s of %s' % (m, recv.t))
        return self.dispatch(st, Func(name), [recv.v] + args, ('reg', ins['n']), ins)

    def dispatch(self, st, fn, args, ret, ins):
        if fn is None:
            return self.panic(st, 'call of nil function')
        if isinstance(fn, Opaque):
            raise Unsupported('call of unknown function')
        name = fn.name
        if name.startswith('@b:'):
            return self.builtin(st, name[3:], args, ret, ins)
        return self.push(st, name, args, ret, fn.b)

    def finish(self, st, ret, v):
        """deliver a call's value without a frame"""
        if ret[0] == 'reg':
            fr = st.frames[-1]
            fr.regs[ret[1]] = v
            fr.ip += 1
            return None
        if ret[0] == 'defer':
            return self.after_defer(st, st.frames[-1])
        if ret[0] == 'base':
            f = Frame({'name': 'value'}, {'v': v}, ret, kind='value')
            st.frames.append(f)
            return None
        raise Unsupported('finish')

    def push(self, st, name, args, ret, bindings=(), force=False):
        short = name.rsplit('.', 1)[-1]
        if name.startswith(MOD) and short.startswith('zv'):
            base = short.split('[')[0]
            h = getattr(self, 'in_' + base, None)
            if h is not None:
                return h(st, args, ret)
        if name.endswith('.init') and st.flags.get('init'):
            return self.finish(st, ret, Tup(()))     # imported packages are initialised separately, in order
        if name in self.models and name not in self.no_model:
            self.used_models.add(name)
            return self.models[name](self, st, args, ret)
        f = self.funcs.get(name)
        if f is None:
            raise Unsupported('unknown function ' + name)
        if not force and self.is_opaque(name):
            caller = st.frames[-1].fn['name'] if st.frames else None
            if not (self.can_unfold(name) and caller != name):
                if self.rewrites and name in self.rewrite_rules():
                    r = self.try_rewrite(st, name, args, ret)
                    if r is not False:
                        return r
                v = self.opaque_result(st, name, args)
                return self.finish(st, ret, v)
        cn = self.contracts.get(name)
        if cn is not None and not force and name not in self.no_contract and not bindings:
            r = self.try_contract(st, name, cn, args, ret)
            if r is not False:
                return r
        if f.get('extern') or not f.get('blocks'):
            raise Unsupported('external function ' + name)
        if len(st.frames) > 80:
            raise Unsupported('call depth')
        self.used_funcs.add(name)
        regs = {}
        for p, a in zip(f['params'], args):
            regs[p['n']] = a
        for p, a in zip(f['freevars'], bindings):
            regs[p['n']] = a
        kind = 'defer' if ret[0] == 'defer' else 'call'
        fr = Frame(f, regs, ret, kind)
        st.frames.append(fr)
        return None

    # ---- rewriting: decode(encode(x) ++ rest), by lemmas zr_<decode>_<encode>(x..., rest)
    def rewrite_rules(self):
        m = getattr(self, '_rules', None)
        if m is None:
            m = self._rules = {}
            for n in self.funcs:
                pkg, _, short = n.rpartition('.')
                if short.startswith('zr_') and n.startswith(MOD):
                    a, b = short[3:].split('_')
                    m.setdefault(pkg + '.' + a, []).append((pkg + '.' + b, n))
        return m

    def head_app(self, st, rope, enc):
        """(terms of the application, rest) if the rope begins with a result of the function enc"""
        for _ in range(4):
            if not rope or rope[0][0] != 'S':
                return None
            c = rope[0]
            d = self.qdef(c[1])
            if d is None:
                return None
            if d[0] == 'app':
                if d[1] != enc or not same(c[2], 0):
                    return None
                if not same(c[3], isimp(qlen(c[1]))) and not self.valid(st, ieq(c[3], qlen(c[1]))):
                    return None
                return c[1].children(), rope[1:]
            r = self.expand(st, c, 0)
            if r is None or rope_key(r) == rope_key((c,)):
                return None
            rope = rope_norm(tuple(r) + tuple(rope[1:]))
        return None

    def try_rewrite(self, st, name, args, ret):
        for enc, rule in self.rewrite_rules()[name]:
            h = self.head_app(st, self.content(st, args[-1]), enc)
            if h is None:
                continue
            zs, rest = h
            f, rf = self.funcs[name], self.funcs[rule]
            p, vals, ok = 0, [], True
            for prm in self.funcs[enc]['params']:
                v, p = self.unflat(st, prm['t'], zs, p)
                vals.append(v)
            byname = {prm['n']: v for prm, v in zip(rf['params'], vals)}
            for prm, a in zip(f['params'][:-1], args):
                b = byname.get(prm['n'])
                if b is None or not self.valid(st, bsimp(z(a) == z(b))):
                    ok = False
            if not ok or not self.requires_hold(st, rule, vals):
                if self.debug:
                    print('rewrite', rule, 'does not apply')
                continue
            self.used_rewrites.add(rule)
            regs = {prm['n']: v for prm, v in zip(rf['params'], vals)}
            st.frames.append(Frame(rf, regs, ret, 'defer' if ret[0] == 'defer' else 'call'))
            return None
        return False

    def in_zvRewrites(self, st, args, ret):
        self.rewrites = True
        return self.finish(st, ret, Tup(()))

    def try_contract(self, st, name, cn, args, ret):
        """substitute the contract function for the call if its requirements hold"""
        cf = self.funcs[cn]
        # requirements are the leading zvRequire calls: evaluated in a sub-exploration
        if not self.requires_hold(st, cn, args):
            return False
        self.used_contracts.add(name)
        if cn.rsplit('.', 1)[-1].startswith('zt_'):
            # returns normally, some value of the type in fresh memory
            vals = [self.fresh_value(st, t, 'tot') for t in cf['results']]
            return self.finish(st, ret, vals[0] if len(vals) == 1 else Tup(vals))
        regs = {}
        for p, a in zip(cf['params'], args):
            regs[p['n']] = a
        fr = Frame(cf, regs, ret, 'defer' if ret[0] == 'defer' else 'call')
        st.frames.append(fr)
        return None

    def requires_hold(self, st, cn, args):
        f = self.funcs[cn]
        if '_req' not in f:
            f['_req'] = any(i['op'] == 'Call' and str(i['call'].get('v', '')).endswith('.zvRequire')
                            for b in f['blocks'] for i in b['i'])
        if not f['_req']:
            return True
        s = st.clone()
        s.flags = dict(s.flags)
        s.flags['req'] = True
        s.frames = []
        s.cuts = []
        regs = {}
        for p, a in zip(f['params'], args):
            regs[p['n']] = a
        s.frames.append(Frame(f, regs, ('base',)))
        outs = self.explore(s)
        return not any(o.kind == 'reqfail' for o in outs)

    # ---- intrinsics
    def in_zvRequire(self, st, args, ret):
        c = args[0]
        if st.flags.get('req'):
            if not self.prove(st, c):
                return Outcome('reqfail', st)
            return self.finish(st, ret, Tup(()))
        st.assume(c)
        return self.finish(st, ret, Tup(()))

    def in_zvAssume(self, st, args, ret):
        c = args[0]
        st.assume(c)
        if self.ctx.check(st.pc) == 'unsat':
            raise Dead()
        return self.finish(st, ret, Tup(()))

    def in_zvReveal(self, st, args, ret):
        self.reveal.add(self.cname(args[0]))
        return self.finish(st, ret, Tup(()))

    def in_zvInline(self, st, args, ret):
        n = self.cname(args[0])
        self.no_model.add(MOD + n)
        pkg = st.frames[-1].fn['name'].rpartition('.')[0]
        t, _, m = n.rpartition('.')
        names = {pkg + '.' + n, '(%s.%s).%s' % (pkg, t, m), '(*%s.%s).%s' % (pkg, t, m)}
        self.contracts = {k: v for k, v in self.contracts.items() if k not in names}
        return self.finish(st, ret, Tup(()))

    def in_zvCase(self, st, args, ret):
        x, n = args
        i = self.split
        if i is None:
            return self.finish(st, ret, x)
        if i < n:
            st.assume(ieq(x, i))
            x = i
        else:
            st.assume(ile(n, x))
        if self.ctx.check(st.pc) == 'unsat':
            raise Dead()
        return self.finish(st, ret, x)

    def cname(self, v):
        bs = bytes(c[1].as_long() for c in v.rope if c[0] == 'U')
        for c in v.rope:
            if c[0] == 'S':
                return self.qdef(c[1])[1].decode()
        return bs.decode()

    def in_zvAssert(self, st, args, ret):
        name = self.cname(args[0])
        c = args[1]
        if self.prove(st, c):
            self.ok(name, str(c)[:60])
        else:
            if self.ctx.check(st.pc) == 'unsat':
                raise Dead()
            bad = st.clone()
            if not isinstance(c, bool):
                bad.pc.append(z(bnot(c)))
            self.fail(bad, name, 'assertion not proved: %s' % str(c)[:300])
        return self.finish(st, ret, Tup(()))

    def in_zvAssertEq(self, st, args, ret):
        name = self.cname(args[0])
        a, b = args[1], args[2]
        # forks raised by the proof re-execute this instruction
        ok = self.iface_eq(st, a, b)
        if ok:
            self.ok(name, 'eq')
        else:
            if self.ctx.check(st.pc) == 'unsat':
                raise Dead()
            self.fail(st, name, 'equality not proved: %s vs %s' % (self.show(st, a), self.show(st, b)))
        return self.finish(st, ret, Tup(()))

    # ---- frames: what a call may write and share
    def in_zvSnap(self, st, args, ret):
        return self.finish(st, ret, Iface(None))

    def in_zvUnchanged(self, st, args, ret):
        name = self.cname(args[0])
        bad = [x for x in st.events if x[0] in ('extwrite', 'extappend', 'extcell') and self.arg_obj(st, x[1])]
        if bad:
            self.fail(st, name, 'memory of the arguments is written: %s' % bad[:3])
        else:
            self.ok(name, 'frame')
        return self.finish(st, ret, Tup(()))

    def in_zvDisjoint(self, st, args, ret):
        name = self.cname(args[0])
        v = args[1]
        bad = list(self.arg_refs(st, v, 'interface{}')) if v is not None else []
        bad += [x for x in st.events if x[0] == 'flatalias']
        if bad:
            self.fail(st, name, 'the result may share memory with an argument: %s' % bad[:3])
        else:
            self.ok(name, 'disjoint')
        return self.finish(st, ret, Tup(()))

    def in_zvAllocBound(self, st, args, ret):
        name = self.cname(args[0])
        bad = [x for x in st.events if x[0] == 'badalloc']
        if bad:
            self.fail(st, name, 'allocation not bounded by the input: %s' % bad[0][2])
        else:
            self.ok(name, 'bounded')
        return self.finish(st, ret, Tup(()))

    def arg_obj(self, st, oid):
        """memory that the caller handed in (or reachable from it)"""
        if oid is None or oid not in st.heap:
            return False
        o = st.heap[oid]
        if not o.ext:
            return False
        if o.kind == 'arr' and len(o.v) == 1 and o.v[0][0] == 'S':
            return self.arg_q(o.v[0][1])
        return True

    def arg_q(self, q):
        """sequence that is memory of the caller: not the result of a specification function
        (the real results it stands for are proved to be fresh) and not built here"""
        nm = q.decl().name()
        if '.zo' in nm and ':' in nm:
            return False
        if self.qdef(q) is not None:
            return False
        if nm.startswith('sk<'):
            return False
        return True

    def has_refs(self, t):
        k = self.kind(t)
        if k[0] in ('slice', 'iface', 'ptr', 'map'):
            return True
        if k[0] == 'array':
            return self.has_refs(k[1])
        if k[0] == 'struct':
            return any(self.has_refs(f) for f in k[1])
        return False

    def arg_refs(self, st, v, t, seen=None):
        """objects of the caller's memory that can be reached (and so written) through the value"""
        seen = set() if seen is None else seen
        if isinstance(v, Slice):
            if v.obj is None or v.obj in seen:
                return
            seen.add(v.obj)
            if self.arg_obj(st, v.obj):
                yield v.obj
                return
            for m in st.heap[v.obj].grp:
                if self.arg_obj(st, m):
                    yield m
            if self.has_refs(v.et):
                yield from self.rope_refs(st, st.heap[v.obj].v, v.et, seen)
        elif isinstance(v, Frozen):
            if self.has_refs(v.et):
                yield from self.rope_refs(st, v.rope, v.et, seen)
        elif isinstance(v, (Struct, Arr, Tup)):
            for x in v.f:
                yield from self.arg_refs(st, x, None, seen)
        elif isinstance(v, Iface):
            if v.t is not None:
                yield from self.arg_refs(st, v.v, v.t, seen)
        elif isinstance(v, SymIface):
            d = v.term.decl().name()
            if d.startswith('mkI<'):
                return     # built from a value that was looked at when it was made
            if not ('.zo' in d and ':' in d) and not d.startswith('sk<'):
                yield 'interface ' + d
        elif isinstance(v, Ptr):
            if v.obj is not None and v.obj not in seen and not v.obj.startswith('G:'):
                seen.add(v.obj)
                o = st.heap[v.obj]
                if o.ext:
                    yield v.obj
                elif o.kind == 'cell':
                    yield from self.arg_refs(st, o.v, None, seen)
                else:
                    yield from self.rope_refs(st, o.v, o.et, seen)

    def rope_refs(self, st, rope, et, seen):
        for c in rope:
            if c[0] == 'U':
                yield from self.arg_refs(st, c[1], et, seen)
            elif self.arg_q(c[1]):
                yield 'elements of ' + c[1].decl().name()
            else:
                d = self.qdef(c[1])
                if d is not None and d[0] == 'rope':
                    for x in self.rope_of(st, c[1], d):
                        if x[0] == 'S' and self.arg_q(x[1]):
                            yield 'elements of ' + x[1].decl().name()

    def show(self, st, v, d=0):
        try:
            if isinstance(v, Iface):
                return self.show(st, v.v, d)
            if isinstance(v, Slice):
                return '[' + ' '.join(self.show_chunk(st, c) for c in self.content(st, v)) + ']'
            if isinstance(v, (Str, Frozen, Builder)):
                return '"' + ' '.join(self.show_chunk(st, c) for c in v.rope) + '"'
            if isinstance(v, (Struct, Arr, Tup)):
                return '{' + ', '.join(self.show(st, x, d + 1) for x in v.f) + '}'
            if isinstance(v, SymIface):
                return str(v.term)[:200]
            return str(v).replace('\n', ' ')[:300]
        except Exception as e:
            return '?' + str(e)

    def show_chunk(self, st, c):
        if c[0] == 'U':
            return self.show(st, c[1])
        return '<%s|%s|%s>' % (str(c[1]).replace('\n', ' ')[:200], c[2], str(c[3]).replace('\n', ' ')[:120])

    def ok(self, name, detail):
        if not self.quiet:
            self.proved.append((name, detail))

    def fail(self, st, name, detail):
        if self.quiet:
            return
        if self.debug:
            print('FAIL', name, detail)
        self.failed.append((name, detail, st.clone()))

    # ---- builtins
    def builtin(self, st, b, args, ret, ins):
        if b == 'len':
            return self.finish(st, ret, self.length(st, args[0]))
        if b == 'cap':
            v = args[0]
            if v.cap is None:
                c = self.ctx.fresh_int('cap')
                st.assume(bsimp(c >= z(v.ln)))
                return self.finish(st, ret, c)
            return self.finish(st, ret, v.cap)
        if b == 'append':
            return self.finish(st, ret, self.append(st, args[0], args[1], ins))
        if b == 'copy':
            return self.finish(st, ret, self.copy(st, args[0], args[1], ins))
        if b == 'recover':
            fr = st.frames[-1]
            if len(st.frames) >= 2 and fr.kind == 'defer' and st.frames[-2].mode == 'panic':
                st.frames[-2].mode = 'recovered'
                return self.finish(st, ret, Iface('error!', Opaque('panic value')))
            return self.finish(st, ret, Iface(None))
        if b == 'ssa:wrapnilchk':
            if isinstance(args[0], Ptr) and args[0].obj is None:
                return self.panic(st, 'nil pointer')
            return self.finish(st, ret, args[0])
        if b in ('min', 'max'):
            r = args[0]
            for x in args[1:]:
                if isinstance(r, int) and isinstance(x, int):
                    r = min(r, x) if b == 'min' else max(r, x)
                    continue
                k = self.kind(ins['t'])
                if k[0] == 'int':
                    c = z(x) < z(r)
                elif k[0] == 'bv':
                    c = (x < r) if k[2] else z3.ULT(x, r)
                else:
                    raise Unsupported(b)
                r = keep(z3.simplify(z3.If(c, z(x), z(r)) if b == 'min' else z3.If(c, z(r), z(x))))
            return self.finish(st, ret, r)
        raise Unsupported('builtin ' + b)

    def length(self, st, v):
        if isinstance(v, Str):
            return rope_len(v.rope)
        if isinstance(v, Slice):
            return v.ln
        if isinstance(v, Arr):
            return len(v.f)
        if isinstance(v, Frozen):
            return rope_len(v.rope)
        if isinstance(v, Ptr):
            return rope_len(st.heap[v.obj].v)
        raise Unsupported('len of %s' % type(v).__name__)

    def append(self, st, v, xs, ins):
        old = self.content(st, v)
        new = xs.rope if isinstance(xs, (Str, Frozen)) else self.content(st, xs)
        if not new and not isinstance(xs, Str):
            if same(self.length(st, xs), 0):
                return v
        rope = rope_norm(tuple(old) + tuple(new))
        exact = v.obj is None or (v.cap is not None and same(v.cap, v.ln))
        res = self.mkslice(st, rope, v.et)
        if not exact:
            self.link(st, v, res, ins)
        return res

    def link(self, st, v, res, ins):
        """res may share v's array: v's array beyond v's end is no longer known"""
        o = st.heap[v.obj]
        if o.ext:
            st.events.append(('extappend', v.obj, (ins or {}).get('pos', '?')))
        end = iadd(v.off, v.ln)
        members = o.grp | {v.obj}
        for m in members:
            mo = st.heap.get(m)
            if mo is None:
                continue
            bad = mo.bad
            if m == v.obj:
                bad = end if bad is None else bad if self.valid(st, ile(bad, end)) else end
            st.heap[m] = mo.copy(grp=mo.grp | {res.obj}, bad=bad)
        r = st.heap[res.obj]
        st.heap[res.obj] = r.copy(grp=frozenset(members))

    def touch(self, st, oid, ins):
        """in-place write to oid: everything that may overlap becomes unknown"""
        o = st.heap[oid]
        if o.ext:
            st.events.append(('extwrite', oid, (ins or {}).get('pos', '?')))
        for m in o.grp:
            if m in st.heap and m != oid:
                mo = st.heap[m]
                st.heap[m] = mo.copy(bad=0)
                if mo.ext:
                    st.events.append(('extwrite', m, (ins or {}).get('pos', '?')))

    def copy(self, st, dst, src, ins):
        sl = self.length(st, src)
        n = None
        if same(dst.ln, sl):
            n = sl
        elif self.decide(st, ile(sl, dst.ln)):
            n = sl
        else:
            n = dst.ln
        if isinstance(n, int) and n == 0:
            return 0
        if dst.obj is None:
            return 0
        r = src.rope if isinstance(src, (Str, Frozen)) else self.content(st, src)
        r = self.rope_slice(st, r, 0, n)
        o = st.heap[dst.obj]
        total = rope_len(o.v)
        a = self.rope_slice(st, o.v, 0, dst.off)
        b = self.rope_slice(st, o.v, iadd(dst.off, n), total)
        self.touch(st, dst.obj, ins)
        o = st.heap[dst.obj]
        st.heap[dst.obj] = o.copy(v=rope_norm(tuple(a) + tuple(r) + tuple(b)))
        return n

    # ---- memory
    def op_Alloc(self, st, fr, ins):
        t = ins['elem']
        k = self.kind(t)
        if k[0] == 'array':
            o = self.newobj(st, Obj('arr', self.zeros_rope(k[1], k[2]), et=k[1], t=t))
        else:
            o = self.newobj(st, Obj('cell', self.zero(t), t=t))
        self.set(fr, ins, Ptr(o))

    def load(self, st, p):
        if p.obj is None:
            return None
        o = st.heap.get(p.obj)
        if o is None:
            if p.obj.startswith('G:'):
                o = (self.globals or {}).get(p.obj)
            if o is None:
                raise Unsupported('load from ' + p.obj)
        if o.kind == 'arr':
            if not p.path:
                n = rope_len(o.v)
                if not isinstance(n, int):
                    raise Unsupported('load of symbolic array')
                return Arr([self.rope_at(st, o.v, i, o.et) for i in range(n)])
            i = p.path[0][1]
            if o.bad is not None and not self.valid(st, ilt(i, o.bad)):
                raise Unsupported('read of an array element that may have been overwritten')
            v = self.rope_at(st, o.v, i, o.et)
            return self.walk(st, v, p.path[1:])
        return self.walk(st, o.v, p.path)

    def walk(self, st, v, path):
        for n, (k, i) in enumerate(path):
            if k == 'f':
                v = v.f[i]
            elif k == 'le':
                v = vsimp(z3.Extract(7, 0, v))
            else:
                if isinstance(i, int):
                    v = v.f[i]
                else:
                    return self.pick(st, v, i, path[n + 1:])
        return v

    def pick(self, st, arr, i, rest):
        vals = [self.walk(st, x, rest) for x in arr.f]
        if all(isinstance(x, (bool, int)) or z3.is_expr(x) for x in vals):
            r = z(vals[-1])
            for n in range(len(vals) - 2, -1, -1):
                r = z3.If(z(i) == n, z(vals[n]), r)
            r = z3.simplify(r)
            if z3.is_bool(r):
                return bsimp(r)
            if z3.is_int(r):
                return isimp(r)
            return keep(r)
        for n in range(len(vals)):
            if n == len(vals) - 1 or self.decide(st, ieq(i, n)):
                return vals[n]
        raise Unsupported('pick')

    def store(self, st, p, v, ins):
        if p.obj.startswith('G:'):
            if not st.flags.get('init'):
                raise Unsupported('store to global ' + p.obj)
        o = st.heap[p.obj]
        if o.kind == 'arr':
            if not p.path:
                st.heap[p.obj] = o.copy(v=tuple(U(x) for x in v.f))
                self.touch(st, p.obj, ins)
                return
            i = p.path[0][1]
            if len(p.path) > 1:
                old = self.rope_at(st, o.v, i, o.et)
                v = self.upd(old, p.path[1:], v)
            total = rope_len(o.v)
            a = self.rope_slice(st, o.v, 0, i)
            b = self.rope_slice(st, o.v, iadd(i, 1), total)
            self.touch(st, p.obj, ins)
            o = st.heap[p.obj]
            st.heap[p.obj] = o.copy(v=rope_norm(tuple(a) + (U(v),) + tuple(b)))
            return
        if o.ext and o.kind == 'cell' and not st.flags.get('init'):
            st.events.append(('extcell', p.obj, (ins or {}).get('pos', '?')))
        st.heap[p.obj] = o.copy(v=self.upd(o.v, p.path, v))

    def upd(self, old, path, v):
        if not path:
            return v
        k, i = path[0]
        if not isinstance(i, int):
            raise Unsupported('store at symbolic array index')
        f = list(old.f)
        f[i] = self.upd(f[i], path[1:], v)
        return type(old)(f)

    def op_Store(self, st, fr, ins):
        p = self.val(st, fr, ins['a'])
        v = self.val(st, fr, ins['v'])
        if isinstance(p, Opaque):
            raise Unsupported('store through unknown pointer')
        if p.obj is None:
            return self.panic(st, 'nil pointer store at %s' % ins.get('pos', '?'))
        self.store(st, p, v, ins)
        fr.ip += 1

    def op_UnOp(self, st, fr, ins):
        tok = ins['tok']
        x = self.val(st, fr, ins['x'])
        if tok == '*':
            if isinstance(x, Opaque):
                raise Unsupported('load through unknown pointer')
            if x.obj is None:
                return self.panic(st, 'nil dereference at %s' % ins.get('pos', '?'))
            return self.set(fr, ins, self.load(st, x))
        if tok == '!':
            return self.set(fr, ins, bnot(x))
        k = self.kind(ins['t'])
        if tok == '-':
            return self.set(fr, ins, ineg(x) if k[0] == 'int' else vsimp(-x))
        if tok == '^':
            return self.set(fr, ins, isub(-1, x) if k[0] == 'int' else vsimp(~x))
        raise Unsupported('unop ' + tok)

    def op_FieldAddr(self, st, fr, ins):
        p = self.val(st, fr, ins['x'])
        if p.obj is None:
            return self.panic(st, 'nil dereference at %s' % ins.get('pos', '?'))
        self.set(fr, ins, Ptr(p.obj, p.path + (('f', ins['i']),)))

    def op_Field(self, st, fr, ins):
        self.set(fr, ins, self.val(st, fr, ins['x']).f[ins['i']])

    def op_Extract(self, st, fr, ins):
        self.set(fr, ins, self.val(st, fr, ins['x']).f[ins['i']])

    def index(self, st, fr, v, t):
        """index operand as Int"""
        k = self.kind(t)
        if k[0] == 'int':
            return v
        return self.bv2int(st, v, k[2])

    def is_i2b(self, v):
        return z3.is_app(v) and (v.decl().kind() == z3.Z3_OP_INT2BV or v.num_args() == 1 and v.decl().name().startswith('i2b!'))

    def bv2int(self, st, v, signed):
        if z3.is_bv_value(v):
            return v.as_signed_long() if signed else v.as_long()
        w = v.size()
        # int2bv(n): n when in range
        if self.is_i2b(v):
            n = v.arg(0)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if self.valid(st, bsimp(z3.And(n >= lo, n <= hi))):
                return isimp(n)
        if self.exact:
            return isimp(keep(z3.BV2Int(v, signed)))
        # zero extension of a narrower value
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() == 0:
            rest = v.children()[1:]
            return self.bv2int(st, rest[0] if len(rest) == 1 else vsimp(z3.Concat(*rest)), False)
        if w <= 16:
            return isimp(keep(z3.BV2Int(v, signed)))
        u = self.app('b2i!%d' % w, [v], INT)
        self.b2i_axioms(u)
        if signed:
            return isimp(z3.If(v >= 0, u, u - (1 << w)))
        return u

    def b2i_axioms(self, u):
        v = u.arg(0)
        w = v.size()
        self.ctx.axiom(z3.And(u >= 0, u < (1 << w)))
        self.ctx.axiom((u < (1 << (w - 1))) == (v >= 0))
        self.ctx.axiom((u == 0) == (v == 0))

    def int2bv(self, st, n, w):
        if isinstance(n, int):
            return keep(z3.BitVecVal(n, w))
        b = None
        if z3.is_app(n) and n.decl().kind() in (z3.Z3_OP_BV2INT,):
            b = n.arg(0)
        elif z3.is_app(n) and n.decl().name().startswith('b2i!'):
            b = n.arg(0)
        elif z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE and z3.is_app(n.arg(1)) and n.arg(1).decl().name().startswith('b2i!'):
            # signed value of a bit-vector
            x = n.arg(1).arg(0)
            if x.size() >= w and isimp(n).eq(isimp(z3.If(x >= 0, n.arg(1), n.arg(1) - (1 << x.size())))):
                b = x
        if b is not None:
            if b.size() == w:
                return b
            if b.size() > w:
                return vsimp(z3.Extract(w - 1, 0, b))
            return vsimp(z3.ZeroExt(w - b.size(), b))
        if self.exact:
            return keep(z3.Int2BV(n, w))
        r = self.app('i2b!%d' % w, [n], z3.BitVecSort(w))
        if w <= 16:
            self.ctx.axiom(z3.BV2Int(r) == n % (1 << w))
        else:
            u = self.app('b2i!%d' % w, [r], INT)
            self.ctx.axiom(z3.And(u >= 0, u < (1 << w)))
            self.ctx.axiom((u < (1 << (w - 1))) == (r >= 0))
            self.ctx.axiom(z3.Implies(z3.And(n >= 0, n < (1 << w)), u == n))
            self.ctx.axiom((z3.Extract(1, 0, r) == 0) == (n % 4 == 0))
        return r

    def op_IndexAddr(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        i = self.index(st, fr, self.val(st, fr, ins['i']), ins['it'])
        if isinstance(x, Slice):
            if not self.in_bounds(st, i, x.ln):
                return self.panic(st, 'index out of range at %s' % ins.get('pos', '?'))
            return self.set(fr, ins, Ptr(x.obj, (('i', iadd(x.off, i)),)))
        # pointer to array
        k = self.kind(ins['xt'])
        n = self.kind(k[1])[2]
        if x.obj is None:
            return self.panic(st, 'nil dereference')
        if not self.in_bounds(st, i, n):
            return self.panic(st, 'index out of range at %s' % ins.get('pos', '?'))
        self.set(fr, ins, Ptr(x.obj, x.path + (('i', i),)))

    def in_bounds(self, st, i, n):
        c = band(ile(0, i), ilt(i, n))
        if isinstance(c, bool):
            return c
        if self.decide(st, c):
            st.assume(c)
            return True
        st.assume(bnot(c))
        return False

    def op_Index(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        i = self.index(st, fr, self.val(st, fr, ins['i']), ins['it'])
        n = self.length(st, x)
        if not self.in_bounds(st, i, n):
            return self.panic(st, 'index out of range at %s' % ins.get('pos', '?'))
        if isinstance(x, Str):
            return self.set(fr, ins, self.rope_at(st, x.rope, i, 'uint8'))
        if isinstance(i, int):
            return self.set(fr, ins, x.f[i])
        return self.set(fr, ins, self.pick(st, x, i, ()))

    def op_Lookup(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        key = self.val(st, fr, ins['i'])
        if isinstance(x, Str):
            return self.op_Index(st, fr, ins)
        _, mt = self.T.under(ins['xt'])
        zero = self.zero(mt['elem'])
        hit, v = False, zero
        if isinstance(x, MapV):
            m = st.heap[x.obj].v if x.obj in st.heap else self.globals[x.obj].v
            for kk, vv in m.values():
                if self.decide_eq(st, key, kk, mt['key']):
                    hit, v = True, vv
                    break
        elif x is not None:
            raise Unsupported('map lookup')
        if ins.get('commaok'):
            return self.set(fr, ins, Tup((v, hit)))
        return self.set(fr, ins, v)

    def decide_eq(self, st, a, b, t):
        k = self.kind(t)
        if k[0] in ('int', 'bv', 'bool'):
            return self.decide(st, bsimp(z(a) == z(b)))
        raise Unsupported('map key type ' + t)

    def op_MakeMap(self, st, fr, ins):
        o = self.newobj(st, Obj('map', {}))
        self.set(fr, ins, MapV(o))

    def op_MapUpdate(self, st, fr, ins):
        m = self.val(st, fr, ins['m'])
        k = self.val(st, fr, ins['k'])
        v = self.val(st, fr, ins['v'])
        if not st.flags.get('init'):
            raise Unsupported('map update')
        o = st.heap[m.obj]
        d = dict(o.v)
        d[vkey(k)] = (k, v)
        st.heap[m.obj] = o.copy(v=d)
        fr.ip += 1

    def op_MakeSlice(self, st, fr, ins):
        n = self.index(st, fr, self.val(st, fr, ins['len']), ins['lt'])
        c = self.index(st, fr, self.val(st, fr, ins['cap']), ins['ct'])
        ok = band(ile(0, n), ile(n, c))
        if not isinstance(ok, bool):
            if not self.decide(st, ok):
                return self.panic(st, 'makeslice: bad length at %s' % ins.get('pos', '?'))
        elif not ok:
            return self.panic(st, 'makeslice: bad length at %s' % ins.get('pos', '?'))
        et = self.kind(ins['t'])[1]
        if self.alloc_bound is not None:
            if not self.prove(st, ile(c, self.alloc_bound)):
                st.events.append(('badalloc', '', '%s elements at %s' % (str(c)[:100], ins.get('pos', '?'))))
        o = self.newobj(st, Obj('arr', self.zeros_rope(et, c), et=et))
        self.set(fr, ins, Slice(o, 0, n, c, False, et))

    def op_Slice(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        lo = self.index(st, fr, self.val(st, fr, ins['lo']), ins['lot']) if ins['lo'] is not None else 0
        hi = self.index(st, fr, self.val(st, fr, ins['hi']), ins['hit']) if ins['hi'] is not None else None
        mx = self.val(st, fr, ins['max']) if ins['max'] is not None else None
        if isinstance(x, Str):
            n = rope_len(x.rope)
            h = n if hi is None else hi
            if not self.range_ok(st, lo, h, n):
                return self.panic(st, 'slice bounds out of range at %s' % ins.get('pos', '?'))
            return self.set(fr, ins, Str(self.rope_slice(st, x.rope, lo, h)))
        if isinstance(x, Slice):
            h = x.ln if hi is None else hi
            cap = x.cap
            if cap is None:
                # capacity unknown but at least ln
                if not self.range_ok(st, lo, h, x.ln):
                    if hi is None or not self.valid(st, band(ile(0, lo), ile(lo, h))):
                        return self.panic(st, 'slice bounds out of range at %s' % ins.get('pos', '?'))
                    raise Unsupported('reslice beyond the length of an array of unknown capacity')
                ncap = None
            else:
                if not self.range_ok(st, lo, h, cap if hi is not None else x.ln):
                    return self.panic(st, 'slice bounds out of range at %s' % ins.get('pos', '?'))
                ncap = isub(cap, lo)
            if mx is not None:
                m = self.index(st, fr, mx, 'int')
                if not self.range_ok(st, h, m, cap if cap is not None else x.ln):
                    return self.panic(st, 'slice bounds out of range')
                ncap = isub(m, lo)
            nil = x.nil
            return self.set(fr, ins, Slice(x.obj, iadd(x.off, lo), isub(h, lo), ncap, nil, x.et))
        # pointer to array
        if x.obj is None:
            return self.panic(st, 'nil dereference')
        if x.path:
            raise Unsupported('slice of embedded array')
        o = st.heap[x.obj] if x.obj in st.heap else self.globals[x.obj]
        if o.kind != 'arr':
            # global array variable held in a cell: snapshot (read-only tables)
            if x.obj.startswith('G:'):
                k = self.kind(self.kind(ins['xt'])[1])
                g = 'S' + x.obj
                st.heap[g] = Obj('arr', tuple(U(v) for v in o.v.f), et=k[1], ext=True)
                x = Ptr(g)
                o = st.heap[g]
            else:
                raise Unsupported('slice of array cell')
        n = rope_len(o.v)
        h = n if hi is None else hi
        if not self.range_ok(st, lo, h, n):
            return self.panic(st, 'slice bounds out of range at %s' % ins.get('pos', '?'))
        self.set(fr, ins, Slice(x.obj, lo, isub(h, lo), isub(n, lo), False, o.et))

    def range_ok(self, st, lo, hi, n):
        c = band(ile(0, lo), ile(lo, hi), ile(hi, n))
        if isinstance(c, bool):
            return c
        if self.decide(st, c):
            st.assume(c)
            return True
        st.assume(bnot(c))
        return False

    # ---- interfaces, functions, conversions
    def op_MakeInterface(self, st, fr, ins):
        v = self.val(st, fr, ins['x'])
        self.set(fr, ins, Iface(ins['xt'], v))

    def op_ChangeInterface(self, st, fr, ins):
        self.set(fr, ins, self.val(st, fr, ins['x']))

    def op_ChangeType(self, st, fr, ins):
        self.set(fr, ins, self.val(st, fr, ins['x']))

    def op_MakeClosure(self, st, fr, ins):
        self.set(fr, ins, Func(ins['fn'], [self.val(st, fr, b) for b in ins['b']]))

    def op_TypeAssert(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        at = ins['at']
        k = self.kind(at)
        if k[0] == 'iface':
            raise Unsupported('assertion to interface type')
        if isinstance(x, Iface):
            ok = x.t is not None and self.T.canon(x.t) == self.T.canon(at)
            v = x.v if ok else self.zero(at)
        elif isinstance(x, SymIface):
            c = bsimp(tid_fn(x.term) == self.T.tid(at))
            ok = self.decide(st, c)
            st.assume(c if ok else bnot(c))
            v = self.iface_payload(st, x.term, at) if ok else self.zero(at)
        else:
            raise Unsupported('type assertion on %s' % type(x).__name__)
        if ins['commaok']:
            return self.set(fr, ins, Tup((v, ok)))
        if not ok:
            return self.panic(st, 'failed type assertion at %s' % ins.get('pos', '?'))
        self.set(fr, ins, v)

    def op_Convert(self, st, fr, ins):
        x = self.val(st, fr, ins['x'])
        self.set(fr, ins, self.convert(st, x, ins['xt'], ins['t']))

    def convert(self, st, x, ft, tt):
        a, b = self.kind(ft), self.kind(tt)
        if a[0] == 'int' and b[0] == 'int':
            return x
        if a[0] == 'int' and b[0] == 'bv':
            return self.int2bv(st, x, b[1])
        if a[0] == 'bv' and b[0] == 'int':
            return self.bv2int(st, x, a[2])
        if a[0] == 'bv' and b[0] == 'bv':
            if a[1] == b[1]:
                return x
            if a[1] > b[1]:
                return vsimp(z3.Extract(b[1] - 1, 0, x))
            return vsimp(z3.SignExt(b[1] - a[1], x) if a[2] else z3.ZeroExt(b[1] - a[1], x))
        if a[0] == 'string' and b[0] == 'slice':
            return self.mkslice(st, x.rope, b[1])
        if a[0] == 'slice' and b[0] == 'string':
            return Str(self.content(st, x))
        if a[0] == b[0] and a[0] in ('string', 'slice', 'struct'):
            return x
        if a[0] == 'ptr' and tt == 'unsafe.Pointer':
            return x
        if ft == 'unsafe.Pointer' and b[0] == 'ptr' and isinstance(x, Ptr) and self.T.canon(b[1]) == 'uint8' and x.obj in st.heap and self.kind(st.heap[x.obj].t)[0] == 'bv' and not x.path:
            self.used_models.add('the lowest byte of a number comes first in memory (platform)')
            return Ptr(x.obj, (('le', 0),))
        raise Unsupported('conversion %s -> %s' % (ft, tt))

    def op_BinOp(self, st, fr, ins):
        x, y = self.val(st, fr, ins['x']), self.val(st, fr, ins['y'])
        tok = ins['tok']
        t = ins['xt']
        k = self.kind(t)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if self.kind(ins['t'])[0] == 'bool':
                return self.set(fr, ins, self.ctx.fresh('opq', BOOL))
            return self.set(fr, ins, Opaque('arith'))
        if tok in ('==', '!='):
            r = self.go_eq(st, x, y, t, ins['yt'])
            return self.set(fr, ins, r if tok == '==' else bnot(r))
        if k[0] == 'int':
            r = self.int_op(st, tok, x, y, ins)
            if isinstance(r, str) and r == 'panic':
                return self.panic(st, 'integer divide by zero')
            return self.set(fr, ins, r)
        if k[0] == 'bv':
            r = self.bv_op(st, tok, x, y, k, ins)
            if isinstance(r, str) and r == 'panic':
                return self.panic(st, 'integer divide by zero')
            return self.set(fr, ins, r)
        if k[0] == 'string':
            if tok == '+':
                return self.set(fr, ins, Str(rope_norm(tuple(x.rope) + tuple(y.rope))))
        raise Unsupported('binop %s on %s' % (tok, t))

    def int_op(self, st, tok, x, y, ins):
        if tok in ('<<', '>>'):
            ky = self.kind(ins['yt'])
            if ky[0] == 'bv':
                y = self.bv2int(st, y, ky[2])
            if not isinstance(y, int):
                raise Unsupported('symbolic shift')
            if tok == '<<':
                return imul(x, 1 << y)
            if isinstance(x, int):
                return x >> y
            return isimp(x / (1 << y))
        if tok == '+':
            return iadd(x, y)
        if tok == '-':
            return isub(x, y)
        if tok == '*':
            return imul(x, y)
        if tok == '<':
            return ilt(x, y)
        if tok == '<=':
            return ile(x, y)
        if tok == '>':
            return ilt(y, x)
        if tok == '>=':
            return ile(y, x)
        if tok in ('/', '%'):
            if isinstance(y, int):
                if y == 0:
                    return 'panic'
            else:
                if self.decide(st, ieq(y, 0)):
                    return 'panic'
                raise Unsupported('division by a variable')
            if isinstance(x, int):
                q = abs(x) // abs(y)
                q = q if (x >= 0) == (y >= 0) else -q
                return q if tok == '/' else x - q * y
            if y < 0:
                raise Unsupported('division by negative constant')
            # truncated division
            if self.valid(st, ile(0, x)):
                return isimp(x / y) if tok == '/' else isimp(x % y)
            q = z3.If(x >= 0, x / y, -((-x) / y))
            return isimp(q) if tok == '/' else isimp(x - q * y)
        if tok == '&' and isinstance(y, int) and y >= 0 and (y & (y + 1)) == 0:
            return (x & y) if isinstance(x, int) else isimp(x % (y + 1))
        if tok == '&' and isinstance(x, int) and x >= 0 and (x & (x + 1)) == 0:
            return isimp(y % (x + 1))
        if tok == '&^' and isinstance(y, int) and y >= 0 and (y & (y + 1)) == 0:
            return (x & ~y) if isinstance(x, int) else isimp(x - x % (y + 1))
        if isinstance(x, int) and isinstance(y, int):
            if tok == '&':
                return x & y
            if tok == '|':
                return x | y
            if tok == '^':
                return x ^ y
            if tok == '&^':
                return x & ~y
        # general case: 64-bit two's complement
        a, b = z3.Int2BV(z(x), 64), z3.Int2BV(z(y), 64)
        r = {'&': a & b, '|': a | b, '^': a ^ b, '&^': a & ~b}.get(tok)
        if r is None:
            raise Unsupported('int ' + tok)
        return isimp(z3.BV2Int(r, True))

    def bv_op(self, st, tok, x, y, k, ins):
        w, signed = k[1], k[2]
        if tok in ('<<', '>>'):
            ky = self.kind(ins['yt'])
            if ky[0] == 'int':
                if not isinstance(y, int):
                    if self.decide(st, ilt(y, 0)):
                        return 'panic'
                    y = self.int2bv(st, y, w)
                else:
                    y = z3.BitVecVal(min(y, w), w) if y < (1 << w) else z3.BitVecVal(w, w)
            else:
                if z3.is_bv_value(y):
                    y = z3.BitVecVal(min(y.as_long(), w), w) if w < 63 or True else y
                elif ky[1] < w:
                    y = z3.ZeroExt(w - ky[1], y)
                elif ky[1] > w:
                    big = z3.UGE(y, w)
                    y = z3.If(big, z3.BitVecVal(w, w), z3.Extract(w - 1, 0, y))
            if tok == '<<':
                return vsimp(x << y)
            return vsimp(x >> y) if signed else vsimp(z3.LShR(x, y))
        if tok == '+':
            return vsimp(x + y)
        if tok == '-':
            return vsimp(x - y)
        if tok == '*':
            return vsimp(x * y)
        if tok == '&':
            return vsimp(x & y)
        if tok == '|':
            return vsimp(x | y)
        if tok == '^':
            return vsimp(x ^ y)
        if tok == '&^':
            return vsimp(x & ~y)
        if tok in ('/', '%'):
            if self.decide(st, bsimp(y == 0)):
                return 'panic'
            if tok == '/':
                return vsimp(x / y) if signed else vsimp(z3.UDiv(x, y))
            return vsimp(z3.SRem(x, y)) if signed else vsimp(z3.URem(x, y))
        if tok == '<':
            return bsimp(x < y if signed else z3.ULT(x, y))
        if tok == '<=':
            return bsimp(x <= y if signed else z3.ULE(x, y))
        if tok == '>':
            return bsimp(x > y if signed else z3.UGT(x, y))
        if tok == '>=':
            return bsimp(x >= y if signed else z3.UGE(x, y))
        raise Unsupported('bv ' + tok)

    def go_eq(self, st, x, y, t, ty):
        k = self.kind(t)
        if k[0] in ('int', 'bv', 'bool'):
            return bsimp(z(x) == z(y))
        if k[0] == 'iface':
            for a, b in ((x, y), (y, x)):
                if isinstance(b, Iface) and b.t is None:
                    if isinstance(a, Iface):
                        return a.t is None
                    return bsimp(tid_fn(a.term) == 0)
            raise Unsupported('interface comparison')
        if k[0] == 'slice':
            a = x if not (x.obj is None) else y
            if a.obj is None:
                return True
            return a.nil
        if k[0] == 'ptr':
            if x.obj is None or y.obj is None:
                return x.obj is None and y.obj is None
            return x.obj == y.obj and x.path == y.path
        if k[0] in ('func', 'map'):
            return x is None and y is None if (x is None or y is None) else False
        if k[0] == 'string':
            return self.seq_eq(st, x.rope, y.rope, 'uint8')
        if k[0] == 'array':
            return band(*[self.go_eq(st, a, b, k[1], k[1]) for a, b in zip(x.f, y.f)])
        if k[0] == 'struct':
            return band(*[self.go_eq(st, a, b, f, f) for a, b, f in zip(x.f, y.f, k[1])])
        raise Unsupported('== on ' + t)

    def seq_eq(self, st, a, b, et):
        """boolean term for equality of two sequences"""
        a, b = rope_norm(a), rope_norm(b)
        if rope_key(a) == rope_key(b):
            return True
        la, lb = rope_len(a), rope_len(b)
        if isinstance(la, int) and isinstance(lb, int):
            if la != lb:
                return False
            if la <= 64:
                return band(*[bsimp(self.rope_at(st, a, i, et) == self.rope_at(st, b, i, et)) for i in range(la)])
        for r, l, o, lo in ((a, la, b, lb), (b, lb, a, la)):
            if isinstance(l, int) and l <= 8:
                if not self.decide(st, ieq(lo, l)):
                    return False
                return band(*[bsimp(self.rope_at(st, a, i, et) == self.rope_at(st, b, i, et)) for i in range(l)])
        # opaque truth value with its defining facts
        q1, o1, l1 = self.as_window(st, a, et)
        q2, o2, l2 = self.as_window(st, b, et)
        args = [q1, z(o1), z(l1), q2, z(o2), z(l2)]
        e = self.app('seqeq<%s>' % self.T.canon(et), args, BOOL)
        d = self.app('seqdiff<%s>' % self.T.canon(et), args, INT)
        x, y = self.at(st, q1, iadd(o1, d), et), self.at(st, q2, iadd(o2, d), et)
        self.ctx.axiom(z3.Implies(e, z(l1) == z(l2)))
        self.ctx.axiom(z3.Or(e, z(l1) != z(l2), z3.And(d >= 0, d < z(l1), x != y)))
        k = self.ctx.fresh_int('ek')
        u, v = self.at(st, q1, iadd(o1, k), et), self.at(st, q2, iadd(o2, k), et)
        f = Fact(k, keep(z3.Implies(e, u == v)), 0, l1)
        if not any(g.body.eq(f.body) for g in st.facts):
            st.facts.append(f)
            st.kappas.append(d)
        return e

    # ------------------------------------------------------------ package initialisation
    def run_init(self):
        """execute the package initialisers concretely; fills self.globals"""
        st = State()
        st.flags['init'] = True
        for g, d in self.prog['globals'].items():
            k = self.kind(d['t'])
            if k[0] == 'array':
                try:
                    st.heap['G:' + g] = Obj('cell', self.zero(d['t']), t=d['t'])
                except Unsupported:
                    pass
            else:
                try:
                    st.heap['G:' + g] = Obj('cell', self.zero(d['t']), t=d['t'])
                except Unsupported:
                    st.heap['G:' + g] = Obj('cell', Opaque('global ' + g), t=d['t'])
        order = []
        seen = set()

        def visit(p):
            if p in seen or p not in self.prog['packages']:
                return
            seen.add(p)
            for i in self.prog['packages'][p]['imports']:
                visit(i)
            order.append(p)
        for p in sorted(self.prog['packages']):
            visit(p)
        failures = {}
        for p in order:
            try:
                outs = self.call_init(st, p + '.init')
                if len(outs) == 1 and outs[0].kind == 'return':
                    st = outs[0].st
                    st.flags['init'] = True
                else:
                    failures[p] = 'initialiser has %d outcomes' % len(outs)
            except Unsupported as e:
                failures[p] = str(e)
        self.globals = st.heap
        self.prog['_globals'] = st.heap
        self.prog['_initfail'] = failures
        return failures

    def call_init(self, st, name):
        s = st.clone()
        s.frames = []
        f = self.funcs[name]
        s.frames.append(Frame(f, {}, ('base',)))
        return self.explore(s)
