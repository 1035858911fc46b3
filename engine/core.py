"""Deductive verifier for Go SSA: values, terms, solver context, ropes.

Integers of type `int` are mathematical integers; every fixed-width integer is
a bit-vector. Sequences (strings and the contents of arrays) are ropes: tuples
of chunks, a chunk being ('U', value) or ('S', q, off, len), a window of the
sequence term q.
"""
import re
import time
import itertools
import z3

z3.set_param('model.completion', False)

Q = z3.DeclareSort('Q')
IF = z3.DeclareSort('I')
INT = z3.IntSort()
BOOL = z3.BoolSort()
qlen = z3.Function('qlen', Q, INT)
tid_fn = z3.Function('tid', IF, INT)


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Unsupported(Exception):
    pass


class Dead(Exception):
    """the current path is infeasible"""


KEEP = {}


def keep(t):
    KEEP[t.get_id()] = t
    return t


# ------------------------------------------------------------------ terms

def isimp(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return keep(t)


def bsimp(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return keep(t)


def vsimp(t):
    return keep(z3.simplify(t))


def iadd(*xs):
    c = 0
    ts = []
    for x in xs:
        if isinstance(x, int):
            c += x
        else:
            ts.append(x)
    if not ts:
        return c
    s = ts[0]
    for t in ts[1:]:
        s = s + t
    if c:
        s = s + c
    return isimp(s) if (len(ts) > 1 or c) else s


def ineg(x):
    return -x if isinstance(x, int) else isimp(-x)


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return isimp(z(a) - z(b))


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return isimp(z(a) * z(b))


def z(x):
    """python constant -> z3 term"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return True
    return bsimp(z(a) == z(b))


def brange(t):
    """the largest value of an unsigned bit-vector read as an integer"""
    if not isinstance(t, int) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BV2INT:
        return (1 << t.arg(0).size()) - 1
    return 0


def ile(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    if isinstance(a, int) and brange(b):
        if a <= 0:
            return True
        if a > brange(b):
            return False
    if isinstance(b, int) and brange(a):
        if b < 0:
            return False
        if b >= brange(a):
            return True
    return bsimp(z(a) <= z(b))


def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    if isinstance(b, int) and not isinstance(a, int):
        return ile(a, b - 1)
    if isinstance(a, int) and not isinstance(b, int):
        return ile(a + 1, b)
    return bsimp(z(a) < z(b))


def bnot(a):
    if isinstance(a, bool):
        return not a
    return bsimp(z3.Not(a))


def band(*xs):
    r = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return keep(z3.And(*r))


def bor(*xs):
    r = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return keep(z3.Or(*r))


def bimp(a, b):
    return bor(bnot(a), b)


def same(a, b):
    """syntactic identity of scalars"""
    if isinstance(a, (bool, int)) or isinstance(b, (bool, int)):
        return type(a) is type(b) and a == b
    return a.eq(b)


def tkey(t):
    if isinstance(t, (bool, int)):
        return t
    keep(t)
    return ('z', t.get_id())


def free_consts(t, acc=None, seen=None):
    """ids of uninterpreted constants in a z3 term"""
    if acc is None:
        acc = {}
    if seen is None:
        seen = set()
    if isinstance(t, (bool, int)):
        return acc
    stack = [t]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc[i] = e
            else:
                stack.extend(e.children())
    return acc


def lin_split(t, w):
    """t == w*e + c with constant 0<=c<w, or None"""
    if isinstance(t, int):
        return t // w, t % w
    if w == 1:
        return t, 0
    t = z3.simplify(t, som=True)
    parts = t.children() if z3.is_add(t) else [t]
    c = 0
    es = []
    for p in parts:
        if z3.is_int_value(p):
            c += p.as_long()
        elif z3.is_mul(p) and z3.is_int_value(p.arg(0)) and p.arg(0).as_long() % w == 0 and p.num_args() == 2:
            es.append((p.arg(0).as_long() // w) * p.arg(1))
        else:
            return None
    e = iadd(*es) if es else 0
    return iadd(e, c // w), c % w


# ------------------------------------------------------------------ types

class Types:
    def __init__(self, table):
        self.t = table
        self._kind = {}
        self.tids = {}

    @staticmethod
    def canon(t):
        t = re.sub(r'\bbyte\b', 'uint8', t)
        t = re.sub(r'\brune\b', 'int32', t)
        t = re.sub(r'\bany\b', 'interface{}', t)
        return t

    def under(self, t):
        e = self.t[t]
        while e['k'] == 'named':
            t = e['under']
            e = self.t[t]
        return t, e

    BASIC = {'bool': ('bool',), 'int': ('int',), 'string': ('string',),
             'untyped bool': ('bool',), 'untyped int': ('int',), 'untyped string': ('string',), 'untyped rune': ('bv', 32, True),
             'int8': ('bv', 8, True), 'int16': ('bv', 16, True), 'int32': ('bv', 32, True), 'rune': ('bv', 32, True),
             'int64': ('bv', 64, True), 'uint8': ('bv', 8, False), 'byte': ('bv', 8, False), 'uint16': ('bv', 16, False),
             'uint32': ('bv', 32, False), 'uint64': ('bv', 64, False), 'uint': ('bv', 64, False), 'uintptr': ('bv', 64, False),
             'untyped nil': ('nil',)}

    def kind(self, t):
        k = self._kind.get(t)
        if k is None:
            _, e = self.under(t)
            kk = e['k']
            if kk == 'basic':
                k = self.BASIC.get(e['name'], ('other', e['name']))
            elif kk in ('slice', 'ptr'):
                k = (kk, e['elem'])
            elif kk == 'array':
                k = ('array', e['elem'], int(e['len']))
            elif kk == 'struct':
                k = ('struct', [f['t'] for f in (e['fields'] or [])])
            elif kk == 'tuple':
                k = ('tuple', e['elems'])
            else:
                k = (kk,)
            self._kind[t] = k
        return k

    def tid(self, t):
        c = self.canon(t)
        if c not in self.tids:
            self.tids[c] = len(self.tids) + 1
        return self.tids[c]


# ------------------------------------------------------------------ values
# scalars: python int/bool or z3 terms

class Val:
    __slots__ = ()


class Str(Val):
    __slots__ = ('rope',)

    def __init__(self, rope):
        self.rope = rope

    def __repr__(self):
        return 'Str%r' % (self.rope,)


class Slice(Val):
    __slots__ = ('obj', 'off', 'ln', 'cap', 'nil', 'et')

    def __init__(self, obj, off, ln, cap, nil, et):
        self.obj, self.off, self.ln, self.cap, self.nil, self.et = obj, off, ln, cap, nil, et

    def __repr__(self):
        return 'Slice(%s,%s,%s)' % (self.obj, self.off, self.ln)


class Ptr(Val):
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj, self.path = obj, path

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.path)


class Struct(Val):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return 'Struct%r' % (self.f,)


class Arr(Val):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)


class Iface(Val):
    """concrete dynamic type (t) or nil (t is None)"""
    __slots__ = ('t', 'v')

    def __init__(self, t, v=None):
        self.t, self.v = t, v

    def __repr__(self):
        return 'Iface(%s,%r)' % (self.t, self.v)


class SymIface(Val):
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term


class Func(Val):
    __slots__ = ('name', 'b')

    def __init__(self, name, b=()):
        self.name, self.b = name, tuple(b)

    def __repr__(self):
        return 'Func(%s)' % self.name


class MapV(Val):
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj


class Tup(Val):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)


class Builder(Val):
    """strings.Builder"""
    __slots__ = ('rope',)

    def __init__(self, rope):
        self.rope = rope


class Opaque(Val):
    """a value nothing is known about and nothing may depend on"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


class Obj:
    """heap object. kind 'cell': value v; kind 'arr': rope content, element type et.
    ext: memory the caller owns (must not be written unless the contract says so).
    grp: frozenset of objects it may overlap with. bad: content unknown from this index on."""
    __slots__ = ('kind', 'v', 'et', 'ext', 'grp', 'bad', 'name', 't')

    def __init__(self, kind, v, et=None, ext=False, grp=frozenset(), bad=None, name='', t=None):
        self.kind, self.v, self.et, self.ext, self.grp, self.bad, self.name, self.t = kind, v, et, ext, grp, bad, name, t

    def copy(self, **kw):
        o = Obj(self.kind, self.v, self.et, self.ext, self.grp, self.bad, self.name, self.t)
        for k, x in kw.items():
            setattr(o, k, x)
        return o


# ------------------------------------------------------------------ ropes

def U(v):
    return ('U', v)


def S(q, o, l):
    return ('S', q, o, l)


def chunk_len(c):
    return 1 if c[0] == 'U' else c[3]


def rope_len(r):
    return iadd(*[chunk_len(c) for c in r]) if r else 0


def rope_norm(r):
    out = []
    for c in r:
        if c[0] == 'S':
            if isinstance(c[3], int) and c[3] == 0:
                continue
            if out and out[-1][0] == 'S':
                p = out[-1]
                if p[1].eq(c[1]) and same(iadd(p[2], p[3]), c[2]):
                    out[-1] = S(p[1], p[2], iadd(p[3], c[3]))
                    continue
        out.append(c)
    return tuple(out)


def vkey(v):
    """structural key of a value (pure data only)"""
    if isinstance(v, (bool, int)):
        return v
    if z3.is_expr(v):
        return tkey(v)
    if isinstance(v, Str):
        return ('str', rope_key(v.rope))
    if isinstance(v, Struct):
        return ('st',) + tuple(vkey(x) for x in v.f)
    if isinstance(v, Arr):
        return ('ar',) + tuple(vkey(x) for x in v.f)
    if isinstance(v, Iface):
        return ('if', v.t, vkey(v.v) if v.v is not None else None)
    if isinstance(v, SymIface):
        return ('si', tkey(v.term))
    if isinstance(v, Slice):
        return ('sl', v.obj, tkey(v.off), tkey(v.ln))
    if isinstance(v, Frozen):
        return ('fz', rope_key(v.rope))
    if isinstance(v, Ptr):
        return ('p', v.obj, v.path)
    if isinstance(v, Func):
        return ('f', v.name) + tuple(vkey(x) for x in v.b)
    if v is None:
        return None
    return ('id', id(v))


class Frozen(Val):
    """a slice value detached from the heap (its content)"""
    __slots__ = ('rope', 'et')

    def __init__(self, rope, et):
        self.rope, self.et = rope, et


def rope_key(r):
    return tuple(('U', vkey(c[1])) if c[0] == 'U' else ('S', c[1].get_id(), tkey(c[2]), tkey(c[3])) for c in r)


# ------------------------------------------------------------------ context

class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0


def uf_apps(f):
    """(ids of uninterpreted applications, ids of uninterpreted constants) in a formula"""
    apps, consts = set(), set()
    seen = set()
    stack = [f]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen or not z3.is_app(e):
            continue
        seen.add(i)
        n = e.num_args()
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            (apps if n else consts).add(i)
        if n:
            stack.extend(e.children())
    return apps, consts


class Level:
    __slots__ = ('fid', 'ids', 'active', 'seen')

    def __init__(self, fid, ids, active, seen):
        self.fid, self.ids, self.active, self.seen = fid, ids, active, seen


class Ctx:
    """One solver context: axioms (definitions and proved postconditions of terms)
    plus an assertion stack that follows the path condition. An axiom is asserted
    only when one of its terms occurs in the query (directly or through another
    asserted axiom); leaving one out can only lose a proof."""

    def __init__(self, timeout_ms=8000):
        self.s = z3.Solver()
        self.timeout_ms = timeout_ms
        self.s.set('timeout', timeout_ms)
        self.stack = [Level(None, {}, {}, 0)]
        self.axset = set()
        self.n = itertools.count()
        self.stats = Stats()
        self.sums = {}           # decl name -> SumDef
        self.fmcache = {}
        self.sumcache = {}
        self.recs = {}
        self.reccache = {}
        self.ensdone = set()
        self.cache = {}
        self.satcache = {}
        self.axioms = []
        self.axkeys = []
        self.index = {}
        self.termcache = {}

    def fresh(self, base, sort):
        return keep(z3.Const('%s!%d' % (base, next(self.n)), sort))

    def fresh_int(self, base):
        return self.fresh(base, INT)

    def axiom(self, f):
        if f is True:
            return
        f = z(f)
        keep(f)
        if f.get_id() in self.axset:
            return
        self.axset.add(f.get_id())
        apps, consts = uf_apps(f)
        key = apps or consts
        for i in key:
            self.index.setdefault(i, []).append(len(self.axioms))
        self.axioms.append(f)
        self.axkeys.append((key, apps | consts))
        # more axioms can only turn sat/unknown into unsat
        self.satcache.clear()

    def terms(self, f):
        i = f.get_id()
        r = self.termcache.get(i)
        if r is None:
            a, c = uf_apps(f)
            r = self.termcache[i] = a | c
        return r

    def known(self, what):
        return {k for l in self.stack for k in getattr(l, what)}

    def activate(self, ids, axs):
        """assert the axioms reachable from the new term ids / new axioms; returns the level's sets"""
        s = self.s
        have_ids, have_ax = self._ids, self._active
        new_ids, new_ax = set(), set()
        todo = [i for i in ids if i not in have_ids]
        work = list(axs)
        while todo or work:
            while todo:
                i = todo.pop()
                if i in have_ids:
                    continue
                have_ids.add(i)
                new_ids.add(i)
                work.extend(self.index.get(i, ()))
            while work:
                a = work.pop()
                if a in have_ax:
                    continue
                key, allids = self.axkeys[a]
                if key and not (key & have_ids):
                    continue
                have_ax.add(a)
                new_ax.add(a)
                s.add(self.axioms[a])
                todo.extend(i for i in allids if i not in have_ids)
        return new_ids, new_ax

    def push(self, fid, fs):
        self.s.push()
        ids = set()
        for f in fs:
            keep(f)
            self.s.add(f)
            ids |= self.terms(f)
        seen = self.stack[-1].seen
        a, b = self.activate(ids, range(seen, len(self.axioms)))
        self.stack.append(Level(fid, a, b, len(self.axioms)))

    def pop(self, n):
        self.s.pop(n)
        for _ in range(n):
            l = self.stack.pop()
            self._ids -= l.ids
            self._active -= l.active

    _ids = None
    _active = None

    def check(self, pc, extra=()):
        """'sat' | 'unsat' | 'unknown' for the conjunction"""
        fs = []
        for f in pc:
            if f is True:
                continue
            if f is False:
                return 'unsat'
            fs.append(f)
        ex = []
        for f in extra:
            if f is True:
                continue
            if f is False:
                return 'unsat'
            ex.append(f)
        ids = [f.get_id() for f in fs]
        key = frozenset(ids + [f.get_id() for f in ex])
        if key in self.cache:
            return 'unsat'
        r = self.satcache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        if self._ids is None:
            self._ids, self._active = set(), set()
        # align the solver's assertion stack with the path condition
        stk = self.stack
        n = 0
        while n + 1 < len(stk) and n < len(ids) and stk[n + 1].fid == ids[n]:
            n += 1
        if n + 1 < len(stk):
            self.pop(len(stk) - n - 1)
        for f, i in zip(fs[n:], ids[n:]):
            self.push(i, [f])
        self.push(None, ex)
        res = self.s.check()
        self.pop(1)
        dt = time.time() - t0
        self.stats.solver_s += dt
        self.stats.queries += 1
        r = 'sat' if res == z3.sat else 'unsat' if res == z3.unsat else 'unknown'
        if r == 'unknown':
            self.stats.unknown += 1
        if r == 'unsat':
            self.cache[key] = r
        else:
            self.satcache[key] = r
        return r

    def check_full(self, pc, extra=()):
        """like check, with every axiom"""
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        for f in list(pc) + list(extra):
            if f is False:
                return 'unsat'
            if f is not True:
                s.add(f)
        for a in self.axioms:
            s.add(a)
        t0 = time.time()
        res = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        return 'sat' if res == z3.sat else 'unsat' if res == z3.unsat else 'unknown'
