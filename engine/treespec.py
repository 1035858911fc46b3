"""Contracts of the OID tree (oid/node.go, oid/tree.go): well-formedness of the heap, ghost state, and the
contract of every function, for the verifier heap.py."""
import multiprocessing
import multiprocessing.connection
import os
import sys
import time
import traceback
import z3
from heap import *
from heap import _n, z, simp, same, short, fresh

NP = '(*' + P + 'Node).'
TP = '(*' + P + 'Tree).'


def fa(vs, body, *pats):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    return z3.ForAll(list(vs), body, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats])


def imp(a, b):
    return z3.Implies(z(a), z(b))


def Or(*xs):
    return z3.Or([z(x) for x in xs])


def Not(x):
    return z3.Not(z(x))


n_, m_, l_, c_, x_ = [z3.Const(k, N) for k in ('n', 'm', 'l', 'c', 'x')]
i_, j_, d_, e_, s_ = [z3.Const(k, I) for k in ('i', 'j', 'd', 'e', 's')]
o_ = z3.Const('o', O)

UNDF = {}


def und(S):
    """UND(l, n): l is n or below n; a defined predicate of the state"""
    key = tuple(S.m[k].get_id() if hasattr(S.m[k], 'get_id') else z3.Z3_get_ast_id(S.m[k].ctx_ref(), S.m[k].as_ast()) for k in ('alive', 'depth', 'anc'))
    if key not in UNDF:
        UNDF[key] = (z3.Function('UND!%d' % next(_n), N, N, B), [S.m[k] for k in ('alive', 'depth', 'anc')])
    U = UNDF[key][0]
    if ('und', key) not in S.defs:
        S.defs.add(('und', key))
        S.assume(fa([l_, n_], U(l_, n_) == under(S, l_, n_), U(l_, n_)))
    return U


def under(S, l, n):
    return And(S.alive(l), S.alive(n), S.depth(n) <= S.depth(l), S.anc(l, S.depth(n)) == n)


def ast_id(f):
    return z3.Z3_get_ast_id(f.ctx_ref(), f.as_ast())


CPF = {}


def cp(S, oid):
    """length of the longest common prefix of a node's path and oid; a defined function of the state"""
    maps = ['alive', 'depth', 'anc', 'subid', 'memU']
    key = tuple(ast_id(S.m[k]) for k in maps) + tuple(ast_id(z(simp(x))) for x in (oid.obj, oid.off, oid.ln))
    if key not in CPF:
        CPF[key] = (z3.Function('cp!%d' % next(_n), N, I), [S.m[k] for k in maps], [z(simp(x)) for x in (oid.obj, oid.off, oid.ln)])
    F = CPF[key][0]
    if ('cp', key) not in S.defs:
        S.defs.add(('cp', key))
        L = z(oid.ln)
        S.assume(fa([n_], imp(S.alive(n_), And(F(n_) >= 0, F(n_) <= S.depth(n_), F(n_) <= L)), F(n_)),
                 fa([n_, e_], imp(And(S.alive(n_), e_ >= 1, e_ <= F(n_)), S.subid(S.anc(n_, e_)) == S.memU(oid.obj, simp2(z(oid.off) + e_ - 1))), (F(n_), S.anc(n_, e_))),
                 fa([n_], imp(And(S.alive(n_), F(n_) < S.depth(n_), F(n_) < L), S.subid(S.anc(n_, F(n_) + 1)) != S.memU(oid.obj, simp2(z(oid.off) + F(n_)))), F(n_)))
    return F


POSF = {}


def pos(S):
    """pos(n, s): number of children of n with a smaller sub-identifier; exists because they are sorted"""
    maps = ['alive', 'subid', 'cb', 'cl', 'mem']
    key = tuple(ast_id(S.m[k]) for k in maps)
    if key not in POSF:
        POSF[key] = (z3.Function('pos!%d' % next(_n), N, I, I), [S.m[k] for k in maps])
    F = POSF[key][0]
    if ('pos', key) not in S.defs:
        S.defs.add(('pos', key))
        S.assume(fa([n_, s_], imp(S.alive(n_), And(F(n_, s_) >= 0, F(n_, s_) <= S.cl(n_))), F(n_, s_)),
                 fa([n_, s_, i_], imp(And(S.alive(n_), 0 <= i_, i_ < S.cl(n_)), (i_ < F(n_, s_)) == (S.subid(S.mem(S.cb(n_), i_)) < s_)), (F(n_, s_), S.mem(S.cb(n_), i_))))
    return F


def simp2(x):
    return z3.simplify(x)


def wf(S):
    c = S.mem(S.cb(n_), i_)
    c2 = S.mem(S.cb(n_), j_)
    p = S.parent(n_)
    a = S.anc(n_, e_)
    return [
        ('the root is a live node without parent', And(S.root != NIL, S.alive(S.root), S.depth(S.root) == 0, S.parent(S.root) == NIL, Not(S.alive(NIL)), S.maxd >= 0)),
        ('children are live and know their parent', fa([n_, i_], imp(And(S.alive(n_), 0 <= i_, i_ < S.cl(n_)), And(S.alive(c), c != S.root, S.parent(c) == n_, S.idx(c) == i_)), c)),
        ('child lists are separate memory', fa([n_], imp(S.alive(n_), And(S.alloc(n_), S.co(n_) == 0, 0 <= S.cl(n_), S.cl(n_) <= S.cc(n_), imp(S.cc(n_) > 0, And(S.owner(S.cb(n_)) == n_, S.allocO(S.cb(n_)))))), S.alive(n_), S.cl(n_), S.cb(n_))),
        ('children are strictly sorted', fa([n_, i_, j_], imp(And(S.alive(n_), 0 <= i_, i_ < j_, j_ < S.cl(n_)), S.subid(c) < S.subid(c2)), (c, c2))),
        ('a node is in the child list of its parent', fa([n_], imp(And(S.alive(n_), n_ != S.root), And(S.alive(p), p != NIL, 0 <= S.idx(n_), S.idx(n_) < S.cl(p), S.mem(S.cb(p), S.idx(n_)) == n_, S.depth(n_) == S.depth(p) + 1)), p)),
        ('depth', fa([n_], imp(S.alive(n_), And(0 <= S.depth(n_), S.depth(n_) <= S.maxd, imp(n_ != S.root, S.depth(n_) >= 1))), S.depth(n_))),
        ('ancestors: ends', fa([n_], imp(S.alive(n_), And(S.anc(n_, S.depth(n_)) == n_, S.anc(n_, 0) == S.root)), S.alive(n_))),
        ('ancestors are live', fa([n_, e_], imp(And(S.alive(n_), 0 <= e_, e_ <= S.depth(n_)), And(S.alive(a), S.depth(a) == e_)), a)),
        ('ancestors: parents', fa([n_, e_], imp(And(S.alive(n_), 0 < e_, e_ <= S.depth(n_)), S.parent(a) == S.anc(n_, e_ - 1)), S.parent(a))),
        ('ancestors of ancestors', fa([n_, d_, e_], imp(And(S.alive(n_), 0 <= e_, e_ <= d_, d_ <= S.depth(n_)), S.anc(S.anc(n_, d_), e_) == S.anc(n_, e_)), S.anc(S.anc(n_, d_), e_))),
    ]


def subid_range(S):
    return fa([n_], And(S.subid(n_) >= 0, S.subid(n_) <= MASK), S.subid(n_))


# consequences of wf, proved by Lemmas below and then used everywhere
def lemma_parent(S):
    return fa([n_, e_], imp(And(S.alive(n_), n_ != S.root, 0 <= e_, e_ < S.depth(n_)), S.anc(n_, e_) == S.anc(S.parent(n_), e_)), (S.anc(n_, e_), S.parent(n_)))


def child_of(S, l, n):
    return S.anc(l, S.depth(n) + 1)


def lemma_child(S):
    U = und(S)
    a = child_of(S, l_, n_)
    return fa([l_, n_], imp(And(U(l_, n_), l_ != n_), And(S.alive(a), a != S.root, S.parent(a) == n_, S.depth(a) == S.depth(n_) + 1, S.depth(l_) >= S.depth(n_) + 1, 0 <= S.idx(a), S.idx(a) < S.cl(n_),
                                                      S.mem(S.cb(n_), S.idx(a)) == a, U(l_, a))), U(l_, n_))


def lemma_up(S):
    U = und(S)
    return fa([l_, c_, n_], imp(And(U(l_, c_), U(c_, n_)), U(l_, n_)), (U(l_, c_), U(c_, n_)))


def lemma_below(S):
    """l below a child of n: the child is where l's path goes"""
    U = und(S)
    return fa([l_, c_], imp(And(U(l_, c_), c_ != S.root), And(U(l_, S.parent(c_)), U(c_, S.parent(c_)), l_ != S.parent(c_), child_of(S, l_, S.parent(c_)) == c_)), (U(l_, c_), S.parent(c_)))


def lemma_step(S):
    U = und(S)
    return fa([c_], imp(And(S.alive(c_), c_ != S.root), U(c_, S.parent(c_))), S.parent(c_))


def lemma_refl(S):
    U = und(S)
    return fa([n_], imp(S.alive(n_), U(n_, n_)), S.alive(n_))


def lemma_live(S):
    U = und(S)
    return fa([l_, n_], imp(U(l_, n_), And(S.alive(l_), S.alive(n_), imp(S.depth(l_) == S.depth(n_), l_ == n_))), U(l_, n_))


def tree_lemmas(S, light=False):
    S.assume(subid_range(S), lemma_below(S), lemma_step(S), lemma_root(S))
    S.assume(*([lemma_live(S)] if light else [lemma_parent(S), lemma_child(S), lemma_up(S)]))


def at_node(S, n):
    """the lemmas about what is below a node, for one node"""
    U = und(S)
    S.assume(z3.substitute_vars(lemma_refl(S).body(), n))
    S.assume(z3.ForAll([l_], z3.substitute_vars(lemma_child(S).body(), n, l_), patterns=[U(l_, n)]))


def lemma_root(S):
    U = und(S)
    return fa([l_], imp(S.alive(l_), U(l_, S.root)), S.alive(l_))


def lemma_cp(S, F):
    U = und(S)
    return fa([l_, n_], imp(U(l_, n_), And(F(l_) >= F(n_), imp(F(n_) < S.depth(n_), F(l_) == F(n_)))), (U(l_, n_), F(l_), F(n_)))


def cpstep(S, F, oid, c):
    n = S.parent(c)
    L = z(oid.ln)
    return And(imp(F(n) < S.depth(n), And(F(c) == F(n), S.anc(c, F(c) + 1) == S.anc(n, F(n) + 1))),
               imp(F(n) == S.depth(n), And(S.anc(c, F(n) + 1) == c, F(c) == z3.If(And(S.depth(n) < L, S.subid(c) == S.memU(oid.obj, simp2(z(oid.off) + S.depth(n)))), S.depth(c), F(n)))))


RELF = {}


def rel(S, oid):
    """how a node's path compares with oid: 0 prefix of oid (or equal), 1 after, -1 before and not a prefix.
    Defined by rel_def; here with the consequences of the definition that lemmas() proves."""
    maps = ['alive', 'depth', 'anc', 'subid', 'memU']
    key = tuple(ast_id(S.m[k]) for k in maps) + tuple(ast_id(z(simp(x))) for x in (oid.obj, oid.off, oid.ln))
    if key not in RELF:
        RELF[key] = (z3.Function('rel!%d' % next(_n), N, I), [S.m[k] for k in maps], [z(simp(x)) for x in (oid.obj, oid.off, oid.ln)])
    R = RELF[key][0]
    if ('rel', key) not in S.defs:
        S.defs.add(('rel', key))
        U = und(S)
        S.assume(fa([c_], imp(And(S.alive(c_), c_ != S.root), rel_step(S, R, oid, c_)), (R(c_), S.parent(c_))),
                 fa([l_, n_], imp(And(U(l_, n_), R(n_) != 0), R(l_) == R(n_)), U(l_, n_)),
                 fa([n_], imp(S.alive(n_), rel_range(S, R, oid, n_)), R(n_)),
                 R(S.root) == 0)
    return R


def rel_def(S, F, R, oid):
    L = z(oid.ln)
    return fa([n_], R(n_) == z3.If(F(n_) == S.depth(n_), z3.IntVal(0), z3.If(F(n_) == L, z3.IntVal(1), z3.If(S.subid(S.anc(n_, F(n_) + 1)) > S.memU(oid.obj, simp2(z(oid.off) + F(n_))), z3.IntVal(1), z3.IntVal(-1)))), R(n_))


def rel_step(S, R, oid, c):
    p = S.parent(c)
    d, x = S.depth(p), S.memU(oid.obj, simp2(z(oid.off) + S.depth(p)))
    return z3.If(R(p) != 0, R(c) == R(p), z3.If(d >= z(oid.ln), R(c) == 1, R(c) == z3.If(S.subid(c) > x, z3.IntVal(1), z3.If(S.subid(c) == x, z3.IntVal(0), z3.IntVal(-1)))))


def rel_range(S, R, oid, n):
    return And(R(n) >= -1, R(n) <= 1, imp(R(n) == 0, S.depth(n) <= z(oid.ln)))


def lt_def(S, LT):
    """introduction rule of the lexicographic order of paths that part below a common node"""
    a, b = S.anc(m_, e_), S.anc(n_, e_)
    return fa([m_, n_, e_], imp(And(S.alive(m_), S.alive(n_), 1 <= e_, e_ <= S.depth(m_), e_ <= S.depth(n_), S.parent(a) == S.parent(b), S.subid(a) < S.subid(b)), LT(m_, n_)), (LT(m_, n_), a, b))


LT = z3.Function('LT', N, N, B)


def base_state(light=False):
    """light: without the definition of below and the rules of ancestors, with their consequences only"""
    S = initial()
    if light:
        und(S)
        del S.hyps[:]
    for nm, f in wf(S):
        if not (light and nm.startswith('ancestors')):
            S.assume(f)
    tree_lemmas(S, light)
    S.assume(fa([o_], imp(S.kept(o_), S.allocO(o_)), S.kept(o_)))
    return S


def leaf(S, l):
    return S.cl(l) == 0


class Con:
    """contract of a function; reads: nothing changes"""
    mutates = ()
    root_only = True
    schemas = ()

    def __init__(self, name):
        self.name = name

    def args(self, v, S, f):
        a = [v.value(p['t'], p['n'], S) for p in f['params']]
        if f['params'] and f['params'][0]['t'] == '*' + P + 'Node' and self.root_only:
            a[0] = S.root
        return a

    def pre(self, S, a):
        return [('the node is the root' if self.root_only else 'the node is live', a[0] == S.root if self.root_only else S.alive(a[0]))]

    def start(self, v, name):
        S = base_state()
        a = self.args(v, S, v.funcs[name])
        for nm, f in self.pre(S, a):
            S.assume(f)
        self.prepare(S, a)
        return S, a, [], {'name': self.name}

    def prepare(self, S, a):
        pass

    def unchanged(self, v, S0, S, what=None):
        for k in (what or HEAP + GHOST):
            if not S.m[k].eq(S0.m[k]):
                raise Failed('%s: changes %s' % (short(self.name), k))
        if not same(S.root, S0.root):
            raise Failed('%s: changes the root' % short(self.name))

    def finish(self, v, top, S, rets):
        S0, a = top['S0'], top['args']
        self.unchanged(v, S0, S)
        r = rets[0] if len(rets) == 1 else rets
        for nm, g in self.post(S0, S, a, r):
            v.oblige(S, '%s: %s' % (short(self.name), nm), g)

    def result(self, v, S):
        raise NotImplementedError

    def call(self, v, S, a, bind, top, where):
        for nm, g in self.pre(S, a):
            v.oblige(S, '%s: %s needs: %s' % (where, short(self.name), nm), g)
        S = S.clone()
        r = self.result(v, S)
        for nm, g in self.post(S, S, a, r):
            S.assume(g)
        return [(S, Tup(r) if isinstance(r, list) else r)]


class SearchChild(Con):
    root_only = False

    def prepare(self, S, a):
        pos(S)

    def result(self, v, S):
        return [fresh('ind', I), fresh('ok', B)]

    def post(self, S0, S, a, r):
        n, s = a
        F = pos(S)
        return [('the index is the position of the sub-identifier', z(r[0]) == F(n, s)),
                ('found means a child with the sub-identifier is there', z(r[1]) == And(z(r[0]) < S.cl(n), S.subid(S.mem(S.cb(n), z(r[0]))) == s)),
                ('not found means no child has the sub-identifier', imp(Not(r[1]), no_child(S, n, s))),
                ('not found: nothing below', imp(Not(r[1]), nothing_below(S, n, s))),
                ('found: the only such child', imp(r[1], only_below(S, n, s, S.mem(S.cb(n), z(r[0])))))]


def no_child(S, n, s):
    return fa([c_], imp(And(S.alive(c_), c_ != S.root, S.parent(c_) == n), S.subid(c_) != s), S.parent(c_))


def nothing_below(S, n, s):
    U = und(S)
    return fa([l_], imp(And(U(l_, n), l_ != n), S.subid(child_of(S, l_, n)) != s), S.alive(l_))


def only_below(S, n, s, r):
    U = und(S)
    return fa([l_], imp(And(U(l_, n), l_ != n, S.subid(child_of(S, l_, n)) == s), child_of(S, l_, n) == r), S.alive(l_))


class GetChild(Con):
    root_only = False

    def result(self, v, S):
        return fresh('child', N)

    def post(self, S0, S, a, r):
        n, s = a
        return [('the child has the sub-identifier', imp(r != NIL, And(S.alive(r), r != S.root, S.parent(r) == n, S.subid(r) == s))),
                ('nil means no child has the sub-identifier', imp(r == NIL, no_child(S, n, s))),
                ('nil: nothing below', imp(r == NIL, nothing_below(S, n, s))),
                ('the only such child', imp(r != NIL, only_below(S, n, s, r)))]


class GetNode(Con):
    def prepare(self, S, a):
        cp(S, a[1])

    def result(self, v, S):
        return fresh('node', N)

    def post(self, S0, S, a, r):
        F, L = cp(S, a[1]), z(a[1].ln)
        return [('the node found has the identifier', imp(r != NIL, And(S.alive(r), S.depth(r) == L, F(r) == L))),
                ('no other node has the identifier', imp(r != NIL, fa([n_], imp(And(S.alive(n_), F(n_) >= L), S.anc(n_, L) == r), F(n_)))),
                ('nil means no node has the identifier', imp(r == NIL, fa([n_], imp(S.alive(n_), F(n_) < L), F(n_), S.alive(n_))))]


def walk_inv(top, S, R):
    """a walk down from the root along the identifier: R.i sub-identifiers consumed, at R.node"""
    oid = top['args'][1]
    F, L = cp(S, oid), z(oid.ln)
    i, n = R['i'], R['node']
    return [('bounds', And(0 <= i, i <= L)),
            ('at a live node of that depth', And(S.alive(n), S.depth(n) == i, F(n) == i)),
            ('everything agreeing so far is below it', fa([n_], imp(And(S.alive(n_), F(n_) >= i), S.anc(n_, i) == n), F(n_)))]


def walk_nil_inv(top, S, R):
    """the same for a walk that goes on to nil when there is no such child"""
    oid = top['args'][1]
    F, L = cp(S, oid), z(oid.ln)
    i, n = R['i'], R['node']
    return [('bounds', And(0 <= i, i <= L)),
            ('at a live node of that depth, or at nil', Or(n == NIL, And(S.alive(n), S.depth(n) == i, F(n) == i))),
            ('at nil nothing agrees', imp(n == NIL, fa([n_], imp(S.alive(n_), F(n_) < i), F(n_), S.alive(n_)))),
            ('everything agreeing so far is below it', imp(n != NIL, fa([n_], imp(And(S.alive(n_), F(n_) >= i), S.anc(n_, i) == n), F(n_))))]


def linear_inv(top, S, R):
    """the children before R.i have smaller sub-identifiers"""
    n, s = top['args']
    i = R['i']
    return [('bounds', And(0 <= i, i <= S.cl(n))),
            ('all before are smaller', imp(i > 0, S.subid(S.mem(S.cb(n), i - 1)) < s))]


def binary_inv(top, S, R):
    """the children before R.lo have smaller sub-identifiers, those from R.hi on do not"""
    n, s = top['args']
    lo, hi = R['lo'], R['hi']
    return [('bounds', And(0 <= lo, lo <= hi, hi <= S.cl(n))),
            ('all before are smaller', imp(lo > 0, S.subid(S.mem(S.cb(n), lo - 1)) < s)),
            ('all from the end on are not', imp(hi < S.cl(n), S.subid(S.mem(S.cb(n), hi)) >= s))]


class Mutator(Con):
    HAVOC = HEAP + GHOST + ('alloc', 'allocO')

    def finish(self, v, top, S, rets):
        S0, a = top['S0'], top['args']
        r = rets[0] if rets else None
        k = self.nochange(r)
        if k is None:
            # the result decides whether something changed
            for b in (False, True):
                T = S.clone()
                T.assume(r == z3.BoolVal(b))
                if v.check(T, z3.BoolVal(True), 1000) != z3.unsat:
                    self.finish(v, top, T, [z3.BoolVal(b)])
            return
        if not same(S.root, S0.root):
            raise Failed('%s: changes the root' % short(self.name))
        if k:
            self.unchanged(v, S0, S)
            posts = self.post_same(S0, S, a)
        else:
            S = S.clone()
            self.ghost(S0, S, a, r)
            for nm, g in wf(S):
                v.oblige(S, '%s: %s' % (short(self.name), nm), g)
            tree_lemmas(S)
            posts = self.post(S0, S, a, r)
        for nm, g in posts:
            v.oblige(S, '%s: %s' % (short(self.name), nm), g)

    def ghost(self, S0, S, a, r):
        pass

    def call(self, v, S, a, bind, top, where):
        for nm, g in self.pre(S, a):
            v.oblige(S, '%s: %s needs: %s' % (where, short(self.name), nm), g)
        out = []
        T = S.clone()
        for nm, g in self.post_same(S, T, a):
            T.assume(g)
        out.append((T, self.same_result))
        T = S.clone()
        for k in self.HAVOC:
            T.havoc(k)
        for nm, g in wf(T):
            T.assume(g)
        tree_lemmas(T)
        r = self.result(v, T)
        for nm, g in self.post(S, T, a, r):
            T.assume(g)
        out.append((T, r))
        if v.dry:
            return out
        return [(t, r) for t, r in out if v.check(t, z3.BoolVal(True), 400) != z3.unsat]


def frame(S0, S, extra=()):
    """live nodes stay as they are"""
    fs = []
    for k in ('subid', 'parent', 'depth') + tuple(extra):
        fs.append(fa([n_], imp(And(S0.alive(n_), S.alive(n_)), S.m[k](n_) == S0.m[k](n_)), S.m[k](n_), S0.m[k](n_)))
    fs.append(fa([n_, e_], imp(And(S0.alive(n_), S.alive(n_)), S.anc(n_, e_) == S0.anc(n_, e_)), S.anc(n_, e_), S0.anc(n_, e_)))
    fs.append(fa([n_], imp(S0.alloc(n_), S.alloc(n_)), S.alloc(n_), S0.alloc(n_)))
    fs.append(fa([o_], imp(S0.allocO(o_), S.allocO(o_)), S.allocO(o_), S0.allocO(o_)))
    return [('other nodes stay as they are %d' % i, f) for i, f in enumerate(fs)]


class AddChild(Mutator):
    root_only = False
    same_result = NIL

    def prepare(self, S, a):
        pos(S)

    def nochange(self, r):
        return True if r.eq(NIL) else False

    def result(self, v, S):
        return fresh('added', N)

    def post_same(self, S0, S, a):
        n, s = a
        return [('nil means the child exists', Not(no_child(S0, n, s)))]

    def ghost(self, S0, S, a, r):
        n, s = a
        F = pos(S0)
        p = F(n, s)
        S.define('alive', lambda x: Or(S0.alive(x), x == r))
        S.define('depth', lambda x: z3.If(x == r, S0.depth(n) + 1, S0.depth(x)))
        S.define('anc', lambda x, e: z3.If(x == r, z3.If(e == S0.depth(n) + 1, r, S0.anc(n, e)), S0.anc(x, e)))
        S.define('idx', lambda x: z3.If(x == r, p, z3.If(And(S0.parent(x) == n, S0.idx(x) >= p), S0.idx(x) + 1, S0.idx(x))))
        b = S.cb(n)
        S.define('owner', lambda o: z3.If(o == b, n, S0.owner(o)))
        S.havoc('maxd')
        S.assume(S.maxd == z3.If(S0.depth(n) + 1 > S0.maxd, S0.depth(n) + 1, S0.maxd))

    def post(self, S0, S, a, r):
        n, s = a
        return [('a new node', And(r != NIL, Not(S0.alive(r)))),
                ('is added', fa([n_], S.alive(n_) == Or(S0.alive(n_), n_ == r), S.alive(n_), S0.alive(n_))),
                ('as a child without children', And(S.parent(r) == n, S.subid(r) == s, S.depth(r) == S0.depth(n) + 1, S.cl(r) == 0)),
                ('no child had the sub-identifier', no_child(S0, n, s)),
                ('path of the child', fa([e_], S.anc(r, e_) == z3.If(e_ == S0.depth(n) + 1, r, S0.anc(n, e_)), S.anc(r, e_)))] + frame(S0, S)


class RemoveChild(Mutator):
    root_only = False
    same_result = z3.BoolVal(False)

    def prepare(self, S, a):
        pos(S)
        und(S)

    def nochange(self, r):
        r = simp(r)
        return (not r) if isinstance(r, bool) else None

    def result(self, v, S):
        return z3.BoolVal(True)

    def post_same(self, S0, S, a):
        n, s = a
        return [('false means there is no such child', no_child(S0, n, s))]

    def victim(self, S0, a):
        return S0.mem(S0.cb(a[0]), pos(S0)(a[0], a[1]))

    def ghost(self, S0, S, a, r):
        n, s = a
        p = pos(S0)(n, s)
        c = self.victim(S0, a)
        S.define('alive', lambda x: And(S0.alive(x), Not(under(S0, x, c))))
        S.define('idx', lambda x: z3.If(And(S0.parent(x) == n, S0.idx(x) > p), S0.idx(x) - 1, S0.idx(x)))

    def post(self, S0, S, a, r):
        n, s = a
        c = self.victim(S0, a)
        return [('there was such a child', And(S0.alive(c), c != S0.root, S0.parent(c) == n, S0.subid(c) == s)),
                ('it is removed with everything below it', fa([n_], S.alive(n_) == And(S0.alive(n_), Not(und(S0)(n_, c))), S.alive(n_), S0.alive(n_)))] + frame(S0, S)


class AddNode(Mutator):
    same_result = NIL

    def prepare(self, S, a):
        cp(S, a[1])

    def nochange(self, r):
        return True if r.eq(NIL) else False

    def result(self, v, S):
        return fresh('added', N)

    def post_same(self, S0, S, a):
        F, L = cp(S0, a[1]), z(a[1].ln)
        return [('nil means the identifier is held', Not(fa([n_], imp(S0.alive(n_), F(n_) < L), F(n_), S0.alive(n_))))]

    def post(self, S0, S, a, r):
        F, L = cp(S0, a[1]), z(a[1].ln)
        oid = a[1]
        return [('the node returned is new', And(r != NIL, Not(S0.alive(r)), S.alive(r))),
                ('the identifier was not held', fa([n_], imp(S0.alive(n_), F(n_) < L), F(n_), S0.alive(n_))),
                ('the node has the identifier', And(S.depth(r) == L, path_is(S, r, oid))),
                ('everything held stays', fa([n_], imp(S0.alive(n_), S.alive(n_)), S.alive(n_), S0.alive(n_))),
                ('only the node and its prefixes are added', fa([n_], imp(And(S.alive(n_), Not(S0.alive(n_))), S.anc(r, S.depth(n_)) == n_), S.alive(n_)))] + frame(S0, S)


def path_is(S, n, oid, upto=None):
    return fa([e_], imp(And(e_ >= 1, e_ <= (S.depth(n) if upto is None else upto)), S.subid(S.anc(n, e_)) == S.memU(oid.obj, simp2(z(oid.off) + e_ - 1))), S.anc(n, e_))


def grow_inv(top, S, R):
    """the missing nodes are being added: R.i sub-identifiers consumed, at R.node"""
    S0, oid = top['S0'], top['args'][1]
    F0, L = cp(S0, oid), z(oid.ln)
    i, n = R['i'], R['node']
    if not same(S.root, S0.root):
        raise Failed('the root changes')
    if top.get('assuming'):
        tree_lemmas(S)
    return [('bounds', And(0 <= i, i <= L)),
            ('at a live node of that depth', And(S.alive(n), S.depth(n) == i))] + [('well-formed: ' + nm, g) for nm, g in wf(S)] + [
            ('the path is the identifier so far', path_is(S, n, oid)),
            ('new when complete', imp(i == L, Not(S0.alive(n)))),
            ('no such child yet', imp(i < L, no_child(S, n, S.memU(oid.obj, simp2(z(oid.off) + i))))),
            ('the identifier was not held', fa([n_], imp(S0.alive(n_), F0(n_) < L), F0(n_), S0.alive(n_))),
            ('everything held stays', fa([n_], imp(S0.alive(n_), S.alive(n_)), S.alive(n_), S0.alive(n_))),
            ('only prefixes are added', fa([n_], imp(And(S.alive(n_), Not(S0.alive(n_))), And(S.anc(n, S.depth(n_)) == n_, S.depth(n_) <= S.depth(n))), S.alive(n_)))] + frame(S0, S)


class RemoveNode(Mutator):
    same_result = z3.BoolVal(False)

    def args(self, v, S, f):
        a = Con.args(self, v, S, f)
        if len(a) > 2:
            a[2] = z3.BoolVal(False)
        return a

    def pre(self, S, a):
        return Con.pre(self, S, a) + ([('without pruning', Not(a[2]))] if len(a) > 2 else [])

    def prepare(self, S, a):
        cp(S, a[1])
        und(S)
        S.assume(lemma_cp(S, cp(S, a[1])))

    nochange = RemoveChild.nochange
    result = RemoveChild.result

    def post_same(self, S0, S, a):
        F, L = cp(S0, a[1]), z(a[1].ln)
        return [('false means the identifier is empty or not held', Or(L == 0, fa([n_], imp(S0.alive(n_), F(n_) < L), F(n_), S0.alive(n_))))]

    def post(self, S0, S, a, r):
        F, L = cp(S0, a[1]), z(a[1].ln)
        return [('the identifier was held', And(L > 0, Not(fa([n_], imp(S0.alive(n_), F(n_) < L), S0.alive(n_))))),
                ('what begins with the identifier is removed, and only that', fa([n_], S.alive(n_) == And(S0.alive(n_), F(n_) < L), S.alive(n_), S0.alive(n_)))] + frame(S0, S)


# ---- wrappers on the tree
def wrapper(base, default=()):
    class W(base):
        def start(self, v, name):
            S = base_state()
            f = v.funcs[name]
            a = [v.value(p['t'], p['n'], S) for p in f['params']]
            b = [S.root] + a[1:] + list(default)
            for nm, g in self.pre(S, b):
                S.assume(g)
            self.prepare(S, b)
            self.b = b
            return S, a, [], {'name': self.name}

        def finish(self, v, top, S, rets):
            top = dict(top)
            top['args'] = self.b
            return base.finish(self, v, top, S, rets)
    return W


class Clear(Mutator):
    def start(self, v, name):
        S = base_state()
        return S, [TreeP()], [], {'name': self.name}

    def finish(self, v, top, S, rets):
        S0 = top['S0']
        S = S.clone()
        r = S.root
        if not same(r, S0.root):
            # a new root
            S.define('depth', lambda x: z3.IntVal(0))
            S.define('anc', lambda x, e: r)
        S.define('alive', lambda x: x == r)
        for nm, g in wf(S) + [('only the root is left', fa([n_], S.alive(n_) == (n_ == S.root), S.alive(n_)))]:
            v.oblige(S, '%s: %s' % (short(self.name), nm), g)


class NewTree(Con):
    def start(self, v, name):
        S = initial()
        S.assume(Not(S.alloc(NIL)), S.maxd >= 0)
        S.g['root'] = NIL
        return S, [], [], {'name': self.name}

    def finish(self, v, top, S, rets):
        S = S.clone()
        if not isinstance(rets[0], TreeP):
            raise Failed('NewTree: no new tree')
        r = S.root
        S.define('alive', lambda x: x == r)
        S.define('depth', lambda x: z3.IntVal(0))
        S.define('anc', lambda x, e: r)
        for nm, g in wf(S):
            v.oblige(S, '%s: %s' % (short(self.name), nm), g)


# ---- next node
class Search(Con):
    """getNextNode on the root, for the first match"""

    def args(self, v, S, f):
        a = Con.args(self, v, S, f)
        if len(a) > 4:
            a[4] = 1
        return a

    def pre(self, S, a):
        return Con.pre(self, S, a) + ([('the first match', z(a[4]) == 1)] if len(a) > 4 else [])

    def prepare(self, S, a):
        rel(S, a[1])
        rel(S, a[2])
        S.assume(lt_def(S, LT))

    def result(self, v, S):
        return fresh('next', N)

    def post(self, S0, S, a, r):
        inr = in_range(S, a[1], a[2], a[3])
        return [('a node returned is a leaf of the range', imp(r != NIL, And(S.alive(r), leaf(S, r), inr(r)))),
                ('no leaf of the range is before it', imp(r != NIL, fa([l_], imp(And(S.alive(l_), leaf(S, l_), l_ != r, inr(l_)), LT(r, l_)), S.alive(l_)))),
                ('nil means no leaf is in the range', imp(r == NIL, fa([l_], imp(And(S.alive(l_), leaf(S, l_)), Not(inr(l_))), S.alive(l_))))]


def in_range(S, oid1, oid2, include):
    R1, R2, L1, L2 = rel(S, oid1), rel(S, oid2), z(oid1.ln), z(oid2.ln)

    def f(l):
        after = Or(R1(l) == 1, And(include, R1(l) == 0, S.depth(l) == L1))
        before = Or(L2 == 0, R2(l) == -1, And(R2(l) == 0, S.depth(l) < L2))
        return And(after, before)
    return f


def captured(v, name):
    """a guess at what the variables captured by a closure hold, from the function that makes it: the closure
    itself, helper closures (checked at every call), or nothing known. ([cell], {cell: closure})"""
    funcs = v if isinstance(v, dict) else v.funcs
    parent = funcs.get(name.rsplit('$', 1)[0]) if '$' in name else None
    fv = funcs[name]['freevars'] or []
    ins = [i for b in parent['blocks'] for i in b['i']] if parent else []
    regs, byname = {}, {}

    def cell(r, t):
        if r not in regs:
            regs[r] = Cell(next(_n), t)
        return regs[r]
    mk = {i['n']: i for i in ins if i['op'] == 'MakeClosure'}
    this = [i for i in mk.values() if i['fn'] in ('@f:' + name, name)]
    if len(this) != 1:
        return [Cell(next(_n), p['t'][1:]) for p in fv], {}
    cells = [cell(r, p['t'][1:]) for r, p in zip(this[0]['b'], fv)]
    holds = {}
    work = list(zip(this[0]['b'], cells))
    while work:
        r, c = work.pop()
        if c.c in holds or not c.t.startswith('func('):
            continue
        st = [i['v'] for i in ins if i['op'] == 'Store' and i['a'] == r]
        if len(st) != 1:
            continue
        if isinstance(st[0], str) and st[0].startswith('@f:'):
            holds[c.c] = Fn(st[0][3:])
        elif isinstance(st[0], str) and st[0][1:] in mk:
            m = mk[st[0][1:]]
            fn = m['fn'][3:] if m['fn'].startswith('@f:') else m['fn']
            ts = [p['t'][1:] for p in funcs[fn]['freevars'] or []]
            b = [cell(x, t) for x, t in zip(m['b'], ts)]
            holds[c.c] = Clo(fn, b)
            work += list(zip(m['b'], b))
    return cells, holds


def keep_cells(v, name, S0, S, but=()):
    """captured variables keep their values"""
    for c, x in S0.cells.items():
        y = S.cells.get(c)
        if c in but or x is y or same_closure(x, y):
            continue
        if isinstance(x, (bool, int)) or z3.is_expr(x):
            if not (isinstance(y, (bool, int)) or z3.is_expr(y)):
                raise Failed('%s: a captured variable changes' % short(name))
            v.oblige(S, '%s: captured variables keep their values' % short(name), z(x) == z(y))
        elif isinstance(x, Sl) and isinstance(y, Sl) and x == y:
            continue
        else:
            raise Failed('%s: a captured variable changes' % short(name))


def same_closure(a, b):
    if isinstance(a, Fn) or isinstance(b, Fn):
        return isinstance(a, Fn) and isinstance(b, Fn) and a.fn == b.fn
    return isinstance(a, Clo) and isinstance(b, Clo) and a.fn == b.fn and len(a.b) == len(b.b) and all(isinstance(x, Cell) and isinstance(y, Cell) and x.c == y.c for x, y in zip(a.b, b.b))


def reach(v, S, name, bind):
    """the cells a closure reaches, with the names of the variables, and the helper closures they hold"""
    out, helpers, own, seen = [], [], [], set()
    work = list(zip([p['n'] for p in v.funcs[name]['freevars'] or []], bind))
    while work:
        n, c = work.pop(0)
        if not isinstance(c, Cell):
            raise Unsupported('variables of ' + short(name))
        if c.c in seen:
            continue
        seen.add(c.c)
        h = S.cells.get(c.c)
        if not c.t.startswith('func('):
            out.append((n, c))
        elif isinstance(h, Clo) and h.fn == name:
            if not same_closure(h, Clo(name, bind)):
                raise Unsupported('variables of ' + short(name))
            own.append(c)
        elif isinstance(h, Clo):
            helpers.append((c, h))
            work += list(zip([p['n'] for p in v.funcs[h.fn]['freevars'] or []], h.b))
        elif isinstance(h, Fn):
            helpers.append((c, h))
        else:
            out.append((n, c))
    return out, helpers, own


def none_yet(S, k):
    return S.cells[k['res'].c] == NIL if 'res' in k else z3.BoolVal(True)


class Iterate(Con):
    light = True

    """the recursive search below a node: args node, ind, eq1, eq2; variables oid1, oid2, include1, repeatition, resnode, iterate"""

    def cells(self, v, S, name, bind):
        r = {}
        out, helpers, own = reach(v, S, name, bind)
        if len(own) != 1:
            raise Unsupported('variables of ' + short(name))
        for n, c in out + [('self', own[0])]:
            t = c.t
            k = 'self' if t.startswith('func(') and n == 'self' else 'res' if t == '*' + P + 'Node' else 'rep' if t == 'int16' else 'inc' if t == 'bool' else None
            if k is None and t == '[]uint32':
                k = n
            if k is None or k in r:
                raise Unsupported('variables of ' + short(name))
            r[k] = c
        want = {'self', 'rep', 'inc', 'oid1', 'oid2'}
        if v.funcs[name]['results'] != ['*' + P + 'Node']:
            want.add('res')         # otherwise it returns the node
        if set(r) != want:
            raise Unsupported('variables of ' + short(name))
        # the helpers are the ones the search was verified with
        guess, holds = captured(v, name)
        want = sorted(h.fn for h in holds.values() if h.fn != name)
        if sorted(h.fn for c, h in helpers) != want or want and [c.t for c in guess] != [c.t for c in bind]:
            raise Unsupported('variables of ' + short(name))
        if want:
            pair = {}

            def match(c, d):
                # the same arrangement of variables as in the guess
                if pair.setdefault(c.c, d.c) != d.c:
                    raise Unsupported('variables of ' + short(name))
                h, g = S.cells.get(c.c), holds.get(d.c)
                if isinstance(g, Clo) and g.fn != name:
                    if not isinstance(h, Clo) or h.fn != g.fn or len(h.b) != len(g.b):
                        raise Unsupported('variables of ' + short(name))
                    for x, y in zip(h.b, g.b):
                        match(x, y)
                elif isinstance(g, Fn) and not (isinstance(h, Fn) and h.fn == g.fn):
                    raise Unsupported('variables of ' + short(name))
            for c, d in zip(bind, guess):
                match(c, d)
            if len(set(pair.values())) != len(pair):
                raise Unsupported('variables of ' + short(name))
        return r

    def start(self, v, name):
        S = base_state(light=True)
        bind, holds = captured(v, name)
        todo = list(bind) + [c for h in holds.values() if isinstance(h, Clo) for c in h.b]
        for c in todo:
            if c.c not in S.cells:
                S.cells[c.c] = holds[c.c] if c.c in holds else v.value(c.t, 'v', S)
        for c in bind:
            if isinstance(S.cells[c.c], Clo) and S.cells[c.c].fn == name:
                S.cells[c.c] = Clo(name, bind)
        k = self.cells(v, S, name, bind)
        if 'res' in k:
            S.cells[k['res'].c] = NIL
        S.cells[k['rep'].c] = 1
        a = [v.value(p['t'], p['n'], S) for p in v.funcs[name]['params']]
        o1, o2 = S.cells[k['oid1'].c], S.cells[k['oid2'].c]
        at_node(S, a[0])
        Search.prepare(self, S, [None, o1, o2])
        for nm, g in self.pre(S, a, k):
            S.assume(g)
        return S, a, bind, {'name': self.name, 'cells': k, 'measure': S.depth(a[0]), 'fn': name}

    def pre(self, S, a, k):
        if len(a) != 4:
            raise Unsupported('parameters of ' + short(self.name))
        n, ind, eq1, eq2 = a
        o1, o2 = S.cells[k['oid1'].c], S.cells[k['oid2'].c]
        R1, R2, L2 = rel(S, o1), rel(S, o2), z(o2.ln)
        D = S.depth(n)
        return [('a live node', And(S.alive(n), z(ind) >= 0)),
                ('nothing found yet', And(none_yet(S, k), z(S.cells[k['rep'].c]) == 1)),
                ('eq1: the path is a prefix of oid1', imp(eq1, And(z(ind) == D, R1(n) == 0))),
                ('not eq1: the path is after oid1', imp(Not(eq1), R1(n) == 1)),
                ('eq2: the path is a prefix of oid2', imp(eq2, And(z(ind) == D, R2(n) == 0, L2 > 0))),
                ('not eq2: the path is before oid2', imp(Not(eq2), Or(L2 == 0, R2(n) == -1)))]

    def post(self, S, a, k, r):
        n = a[0]
        U = und(S)
        inr = in_range(S, S.cells[k['oid1'].c], S.cells[k['oid2'].c], S.cells[k['inc'].c])
        return [('found: a leaf of the range below the node', imp(r != NIL, And(U(r, n), leaf(S, r), inr(r)))),
                ('found: no leaf of the range below the node is before it', imp(r != NIL, fa([l_], imp(And(U(l_, n), leaf(S, l_), l_ != r, inr(l_)), LT(r, l_)), U(l_, n)))),
                ('not found: no leaf below the node is in the range', imp(r == NIL, fa([l_], imp(And(U(l_, n), leaf(S, l_)), Not(inr(l_))), U(l_, n))))]

    def finish(self, v, top, S, rets):
        self.unchanged(v, top['S0'], S)
        k = top['cells']
        keep_cells(v, self.name, top['S0'], S, [k[x].c for x in ('res', 'rep') if x in k])
        if 'res' not in k:
            for nm, g in self.post(S, top['args'], k, rets[0]) + [('not found: the count stays', imp(rets[0] == NIL, z(S.cells[k['rep'].c]) == 1))]:
                v.oblige(S, '%s: %s' % (short(self.name), nm), g)
            return
        if rets and not (len(rets) == 1 and (isinstance(rets[0], bool) or z3.is_expr(rets[0]) and rets[0].sort() == B)):
            raise Unsupported('result of ' + short(self.name))
        told = [('the result tells whether one is found', z(r) == (S.cells[k['res'].c] != NIL)) for r in rets]
        for nm, g in told + self.post(S, top['args'], k, S.cells[k['res'].c]) + [('not found: the count stays', imp(S.cells[k['res'].c] == NIL, z(S.cells[k['rep'].c]) == 1))]:
            v.oblige(S, '%s: %s' % (short(self.name), nm), g)

    def call(self, v, S, a, bind, top, where):
        k = self.cells(v, S, self.fn, bind)
        for nm, g in self.pre(S, a, k):
            v.oblige(S, '%s: the recursive search needs: %s' % (where, nm), g)
        if top.get('measure') is not None:
            v.oblige(S, '%s: the recursion goes down' % where, And(S.depth(a[0]) > top['measure'], S.depth(a[0]) <= S.maxd))
        S = S.clone()
        r = fresh('found', N)
        if 'res' in k:
            S.cells[k['res'].c] = r
        rep = fresh('rep', I)
        S.cells[k['rep'].c] = rep
        S.assume(imp(r == NIL, rep == 1))
        for nm, g in self.post(S, a, k, r):
            S.assume(g)
        return [(S, r if 'res' not in k else r != NIL if v.funcs[self.fn]['sig'].rsplit(')', 1)[-1].strip() == 'bool' else Tup([]))]


def next_inv(top, S, R):
    n = top['args'][0]
    k = top['cells']
    U = und(S)
    inr = in_range(S, S.cells[k['oid1'].c], S.cells[k['oid2'].c], S.cells[k['inc'].c])
    return [('bounds', And(0 <= R['k'], R['k'] <= S.cl(n))),
            ('nothing found yet', And(none_yet(S, k), z(S.cells[k['rep'].c]) == 1)),
            ('no leaf below the children seen is in the range', fa([l_], imp(And(U(l_, n), leaf(S, l_), l_ != n, S.idx(child_of(S, l_, n)) < R['k']), Not(inr(l_))), U(l_, n)))]


# ---- traversal
def order_kept(S0, S, given=None):
    """memory allocated and not handed out before keeps its contents and stays private (but for what is given)"""
    return [('private memory stays private', fa([o_], imp(And(S0.allocO(o_), Not(S0.kept(o_)), z3.BoolVal(True) if given is None else o_ != given), Not(S.kept(o_))), S.kept(o_), S0.kept(o_))),
            ('private memory keeps its contents', fa([o_, i_], imp(And(S0.allocO(o_), Not(S0.kept(o_)), z3.BoolVal(True) if given is None else o_ != given), S.memU(o_, i_) == S0.memU(o_, i_)), S.memU(o_, i_))),
            ('memory handed out stays so', fa([o_], imp(S0.kept(o_), S.kept(o_)), S.kept(o_), S0.kept(o_))),
            ('memory handed out is allocated', fa([o_], imp(S.kept(o_), S.allocO(o_)), S.kept(o_))),
            ('memory stays allocated', fa([o_], imp(S0.allocO(o_), S.allocO(o_)), S.allocO(o_), S0.allocO(o_)))]


def visit(v, S, a, where):
    if len(a) != 2 or not isinstance(a[0], Sl):
        raise Unsupported('visitor')
    s, m = a
    U = und(S)
    for nm, g in [('is a leaf below the root', And(S.alive(m), m != S.root, leaf(S, m))),
                  ('has the length of its identifier', z(s.ln) == S.depth(m)),
                  ('has its identifier', path_is(S, m, s)),
                  ('gets memory of its own', Not(S.kept(s.obj))),
                  ('comes after all visited before', fa([x_], imp(S.visited(x_), LT(x_, m)), S.visited(x_)))]:
        v.oblige(S, '%s: the leaf visited %s' % (where, nm), g)
    old = S.visited
    S.define('visited', lambda x: Or(old(x), x == m))
    oldk, oldm = S.kept, S.memU
    obj = s.obj
    S.define('kept', lambda o: Or(oldk(o), o == obj))
    S.havoc('memU')
    S.assume(fa([o_, i_], imp(Not(S.kept(o_)), S.memU(o_, i_) == oldm(o_, i_)), S.memU(o_, i_)))


def walk_shape(f):
    """(index of the identifier, index of the list or node, is it a node) of the parameters of a traversal, or None"""
    ts = [p['t'] for p in f['params']]
    lists, nodes = '[]*' + P + 'Node', '*' + P + 'Node'
    t = [i for i, x in enumerate(ts) if x in (lists, nodes)]
    o = [i for i, x in enumerate(ts) if x == '[]uint32']
    if len(t) != 1 or len(o) != 1 or [x for x in ts if x not in (lists, nodes, '[]uint32', VISITOR)] or ts.count(VISITOR) > 1:
        return None
    return o[0], t[0], ts[t[0]] == nodes


def self_variable(v, name):
    """the captured variable of a closure that holds the closure itself, as its enclosing function sets it up"""
    f = v.funcs.get(name.rsplit('$', 1)[0])
    if '$' not in name or f is None:
        return None
    for b in f['blocks']:
        for ins in b['i']:
            if ins['op'] == 'MakeClosure' and ins['fn'] in ('@f:' + name, name):
                for c in f['blocks']:
                    for st in c['i']:
                        if st['op'] == 'Store' and st['v'] == '%' + ins['n'] and st['a'] in ins['b']:
                            return v.funcs[name]['freevars'][ins['b'].index(st['a'])]['n']
    return None


def self_visiting(v, f):
    """the visitor is called outside loops: on the node given itself"""
    inloop = set().union(*v.loops(f).values()) if v.loops(f) else set()
    own = self_variable(v, f['name'])
    defs = {i['n']: i for b in f['blocks'] for i in b['i'] if 'n' in i}

    def other(x):
        d = defs.get(x[1:])
        return d is None or d['op'] == 'UnOp' and d['x'] != '%%%s' % own
    return any(ins['op'] == 'Call' and i not in inloop and ins['call'].get('v', '')[:1] == '%' and len(ins['call']['args']) == 2 and other(ins['call']['v'])
               for i, b in enumerate(f['blocks']) for ins in b['i'])


class Walk(Con):
    """the recursive traversal of a child list, or of the children of a node (or of the node itself): an
    identifier and a list or node"""

    def shape(self, v, name):
        f = v.funcs[name]
        sh = walk_shape(f)
        if sh is None:
            raise Unsupported('parameters of ' + short(name))
        self.io, self.it, self.node = sh
        self.own = self.node and self_visiting(v, f)

    def cells(self, v, name, bind):
        r = {}
        own = self_variable(v, name)
        for p, c in zip(v.funcs[name]['freevars'] or [], bind):
            t = p['t'][1:]
            k = 'self' if p['n'] == own else 'do' if t == VISITOR else None
            if k is None or k in r:
                raise Unsupported('variables of ' + short(name))
            r[k] = c
        return r

    def start(self, v, name):
        self.shape(v, name)
        S = base_state()
        bind = []
        for p in v.funcs[name]['freevars'] or []:
            c = Cell(next(_n), p['t'][1:])
            S.cells[c.c] = VISIT if c.t == VISITOR else Other()
            bind.append(c)
        k = self.cells(v, name, bind)
        if 'self' in k:
            S.cells[k['self'].c] = Clo(name, bind)
        a = [v.value(p['t'], p['n'], S) for p in v.funcs[name]['params']]
        S.assume(lt_def(S, LT))
        for nm, g in self.pre(S, a):
            S.assume(g)
        p = self.p(S, a)
        if self.node:
            at_node(S, p)
        return S, a, bind, {'name': self.name, 'measure': S.depth(p), 'visit': visit, 'p': p, 'count': S.cl(p) if self.node else z(a[self.it].ln)}

    def p(self, S, a):
        return a[self.it] if self.node else S.owner(a[self.it].obj)

    def some(self, S, a):
        """is there anything to visit"""
        return z3.BoolVal(True) if self.own else S.cl(a[self.it]) > 0 if self.node else z(a[self.it].ln) > 0

    def pre(self, S, a):
        oid, nodes = a[self.io], a[self.it]
        p = self.p(S, a)
        U = und(S)
        some = self.some(S, a)
        if self.node:
            what = [('the node is live', S.alive(p))] + ([('the node is not the root', p != S.root)] if self.own else [])
        else:
            what = [('the list is the children of a live node', imp(some, And(S.alive(p), z(nodes.off) == 0, z(nodes.ln) == S.cl(p), nodes.obj == S.cb(p))))]
        return what + [
                ('parentOid is the identifier of that node', imp(some, And(z(oid.ln) == S.depth(p), path_is(S, p, oid)))),
                ('parentOid is private memory', imp(z(oid.ln) > 0, And(Not(S.kept(oid.obj)), S.allocO(oid.obj)))),
                ('what was visited comes before', imp(some, fa([x_, l_], imp(And(S.visited(x_), U(l_, p), leaf(S, l_)), LT(x_, l_)), (S.visited(x_), U(l_, p)))))]

    def post(self, S0, S, a):
        p = self.p(S0, a)
        U = und(S0)
        return [('exactly the leaves below are visited', fa([x_], S.visited(x_) == Or(S0.visited(x_), And(self.some(S0, a), U(x_, p), leaf(S0, x_))), S.visited(x_), S0.visited(x_), U(x_, p)))] + order_kept(S0, S, a[self.io].obj if self.own else None)

    def finish(self, v, top, S, rets):
        self.unchanged(v, top['S0'], S)
        keep_cells(v, self.name, top['S0'], S)
        for nm, g in self.post(top['S0'], S, top['args']):
            v.oblige(S, '%s: %s' % (short(self.name), nm), g)

    def call(self, v, S, a, bind, top, where):
        self.shape(v, self.name)
        for x, c in self.cells(v, self.name, bind).items():
            h = S.cells.get(c.c)
            if x == 'self' and not same_closure(h, Clo(self.name, bind)) or x == 'do' and h is not VISIT:
                raise Failed('%s: a captured variable changes' % short(self.name))
        for nm, g in self.pre(S, a):
            v.oblige(S, '%s: the recursive traversal needs: %s' % (where, nm), g)
        if top.get('measure') is not None:
            p = self.p(S, a)
            v.oblige(S, '%s: the recursion goes down' % where, imp(self.some(S, a), And(S.depth(p) > top['measure'], S.depth(p) <= S.maxd)))
        T = S.clone()
        for k in ('visited', 'kept', 'memU', 'allocO'):
            T.havoc(k)
        for nm, g in self.post(S, T, a):
            T.assume(g)
        # child lists stay allocated: part of order_kept
        return [(T, Tup([]))]


def walk_leaves_inv(top, S, R):
    S0, a, p = top['S0'], top['args'], top['p']
    U = und(S0)
    return [('bounds', And(0 <= R['k'], R['k'] <= top['count'])),
            ('exactly the leaves below the children seen are visited', fa([x_], S.visited(x_) == Or(S0.visited(x_), And(U(x_, p), leaf(S0, x_), x_ != p, S0.idx(child_of(S0, x_, p)) < R['k'])), S.visited(x_), S0.visited(x_), U(x_, p)))] + order_kept(S0, S)


class ForRange(Con):
    def start(self, v, name):
        S = base_state()
        a = self.args(v, S, v.funcs[name])
        for nm, g in self.pre(S, a):
            S.assume(g)
        S.assume(lt_def(S, LT))
        S.assume(fa([x_], Not(S.visited(x_)), S.visited(x_)), fa([o_], Not(S.kept(o_)), S.kept(o_)))
        und(S)
        at_node(S, S.root)
        return S, a, [], {'name': self.name, 'visit': visit, 'p': S.root, 'count': S.cl(S.root)}

    def post(self, S0, S, a, r):
        return [('exactly the leaves below the root are visited', fa([x_], S.visited(x_) == And(S0.alive(x_), leaf(S0, x_), x_ != S0.root), S.visited(x_), S0.alive(x_)))]

    def result(self, v, S):
        return Tup([])

    def call(self, v, S, a, bind, top, where):
        for nm, g in self.pre(S, a):
            v.oblige(S, '%s: %s needs: %s' % (where, short(self.name), nm), g)
        T = S.clone()
        for k in ('visited', 'kept', 'memU', 'allocO'):
            T.havoc(k)
        for nm, g in self.post(S, T, a, None):
            T.assume(g)
        return [(T, Tup([]))]


# ---- lemmas
def lemmas():
    """[(name, state, goal)]"""
    out = []

    def st():
        S = initial()
        for nm, f in wf(S):
            S.assume(f)
        S.assume(subid_range(S))
        return S
    S = st()
    # hint terms: parent(anc(n, depth n)), anc(anc(n, depth n - 1), e)
    n, e = fresh('n', N), fresh('e', I)
    S.assume(S.alive(n), n != S.root, 0 <= e, e < S.depth(n))
    T = z3.Function('hint', N, B)
    S.assume(T(S.parent(S.anc(n, S.depth(n)))), T(S.anc(S.anc(n, S.depth(n) - 1), e)))
    out.append(('lemma: ancestors of a node and of its parent', S, S.anc(n, e) == S.anc(S.parent(n), e)))
    S = st()
    S.assume(lemma_parent(S))
    U = und(S)
    l, n = fresh('l', N), fresh('n', N)
    S.assume(U(l, n), l != n)
    a = child_of(S, l, n)
    S.assume(T(S.parent(a)), T(S.anc(a, S.depth(n) + 1)), T(S.anc(l, S.depth(l))), T(S.anc(S.anc(l, S.depth(n) + 1), S.depth(n) + 1)))
    out.append(('lemma: what is below a node is below one of its children', S, And(S.alive(a), a != S.root, S.parent(a) == n, S.depth(a) == S.depth(n) + 1, S.depth(l) >= S.depth(n) + 1, 0 <= S.idx(a), S.idx(a) < S.cl(n), S.mem(S.cb(n), S.idx(a)) == a, U(l, a))))
    S = st()
    U = und(S)
    l, c, n = fresh('l', N), fresh('c', N), fresh('n', N)
    S.assume(U(l, c), U(c, n), T(S.anc(S.anc(l, S.depth(c)), S.depth(n))))
    out.append(('lemma: below is transitive', S, U(l, n)))
    S = st()
    S.assume(lemma_parent(S))
    U = und(S)
    l, c = fresh('l', N), fresh('c', N)
    S.assume(U(l, c), c != S.root)
    p = S.parent(c)
    S.assume(T(S.anc(S.anc(l, S.depth(c)), S.depth(p))), T(S.anc(c, S.depth(p))), T(S.anc(p, S.depth(p))), T(child_of(S, l, p)))
    out.append(('lemma: what is below a child', S, And(U(l, p), U(c, p), l != p, child_of(S, l, p) == c)))
    S = st()
    U = und(S)
    c = fresh('c', N)
    S.assume(S.alive(c), c != S.root)
    p = S.parent(c)
    S.assume(lemma_parent(S), T(S.anc(c, S.depth(p))), T(S.anc(p, S.depth(p))))
    out.append(('lemma: a child is below its parent', S, U(c, p)))
    S = st()
    U = und(S)
    n = fresh('n', N)
    S.assume(S.alive(n))
    out.append(('lemma: a node is below itself', S, U(n, n)))
    S = st()
    U = und(S)
    l, n = fresh('l', N), fresh('n', N)
    S.assume(U(l, n), T(S.anc(l, S.depth(l))))
    out.append(('lemma: below means both are live', S, And(S.alive(l), S.alive(n), imp(S.depth(l) == S.depth(n), l == n))))
    S = st()
    U = und(S)
    l = fresh('l', N)
    S.assume(S.alive(l))
    S.assume(T(S.anc(l, 0)), S.depth(l) >= 0)
    out.append(('lemma: everything is below the root', S, U(l, S.root)))
    S = st()
    U = und(S)
    oid = Sl('U', fresh('o', O), fresh('off', I), fresh('len', I), fresh('cap', I))
    S.assume(oid.ln >= 0)
    F = cp(S, oid)
    l, n = fresh('l', N), fresh('n', N)
    S.assume(U(l, n))
    S.assume(F(n) >= 0, T(S.anc(S.anc(l, S.depth(n)), F(l) + 1)), T(S.anc(S.anc(l, S.depth(n)), F(n) + 1)), T(S.anc(l, F(l) + 1)), T(S.anc(n, F(l) + 1)), T(S.anc(l, F(n) + 1)))
    out.append(('lemma: common prefixes below a node', S, And(F(l) >= F(n), imp(F(n) < S.depth(n), F(l) == F(n)))))
    S = st()
    S.assume(lemma_parent(S))
    U = und(S)
    oid = Sl('U', fresh('o', O), fresh('off', I), fresh('len', I), fresh('cap', I))
    S.assume(oid.ln >= 0)
    F = cp(S, oid)
    c = fresh('c', N)
    S.assume(S.alive(c), c != S.root)
    n = S.parent(c)
    R = z3.Function('rel', N, I)
    S.assume(lemma_step(S), lemma_cp(S, F), rel_def(S, F, R, oid))
    S.assume(F(n) >= 0, F(c) >= 0, T(S.anc(c, S.depth(c))), T(S.anc(c, F(c) + 1)), T(S.anc(n, F(n) + 1)), T(S.anc(c, F(n) + 1)))
    S1 = S.clone()
    out.append(('lemma: comparison of a child', S1, rel_step(S, R, oid, c)))
    l, n = fresh('l', N), fresh('n', N)
    S2 = S.clone()
    S2.assume(U(l, n), R(n) != 0, T(S.anc(S.anc(l, S.depth(n)), F(n) + 1)), T(S.anc(l, F(n) + 1)))
    out.append(('lemma: comparison below a node', S2, R(l) == R(n)))
    S3 = S.clone()
    S3.assume(S.alive(n), F(n) >= 0, F(S.root) >= 0, R(S.root) >= -5)
    out.append(('lemma: comparison of a node', S3, And(rel_range(S, R, oid, n), R(S.root) == 0)))
    return out


def contracts(funcs):
    """contracts by function name, and the functions to verify per property"""
    con = {}

    def add(n, c):
        if n in funcs:
            con[n] = c(n)
            con[n].fn = n
    add(NP + 'searchChild', SearchChild)
    add(NP + 'getChild', GetChild)
    add(NP + 'addChild', AddChild)
    add(NP + 'removeChild', RemoveChild)
    add(NP + 'getNode', GetNode)
    add(NP + 'addNode', AddNode)
    add(NP + 'removeNode', RemoveNode)
    add(NP + 'getNextNode', Search)
    add(NP + 'forRangeLeaves', ForRange)
    for n in funcs:
        if n.startswith(NP + 'getNextNode$') and any(isinstance(h, Clo) and h.fn == n for h in captured(funcs, n)[1].values()):
            add(n, Iterate)
        if n.startswith(NP + 'forRangeLeaves$'):
            add(n, Walk)
        elif n not in con and '/oid.' in n and funcs[n].get('blocks') and walk_shape(funcs[n]) and any(ins['op'] == 'Call' and ins['call'].get('v') == '@f:' + n for b in funcs[n]['blocks'] for ins in b['i']):
            # a traversal written as a recursive function of its own
            add(n, Walk)
    add(TP + 'AddNode', wrapper(AddNode))
    add(TP + 'GetNode', wrapper(GetNode))
    add(TP + 'RemoveNode', wrapper(RemoveNode, [z3.BoolVal(False)]))
    add(TP + 'Clear', Clear)
    add(TP + 'GetNextNode', wrapper(Search, [1]))
    add(TP + 'ForRangeLeaves', wrapper(ForRange))
    add(P + 'NewTree', NewTree)
    return con


def tail_loops(funcs):
    """A call of a function by itself whose result it returns at once is a jump to its start with new
    parameters: such functions are verified as the loops they are."""
    for n, f in list(funcs.items()):
        bl = f.get('blocks')
        if not bl or '$' in n or not n.startswith(NP) or any(i['op'] in ('Defer', 'RunDefers', 'Go') for b in bl for i in b['i']) or f.get('freevars') or bl[0]['p']:
            continue
        tails = {}
        for k, b in enumerate(bl):
            i = b['i']
            if i[-1]['op'] != 'Return' or len(i) < 2:
                continue
            c = i[-2]
            if c['op'] == 'Call' and c['call'].get('v') == '@f:' + n and len(i[-1].get('r') or []) == len(f['results']) <= 1 and all(x == '%' + str(c.get('n')) for x in i[-1].get('r') or []):
                tails[k] = c['call']['args']
        if not tails:
            continue
        names = {'%' + p['n']: '%tail$' + p['n'] for p in f['params']}

        def sub(x):
            if isinstance(x, str):
                return names.get(x, x)
            if isinstance(x, list):
                return [sub(y) for y in x]
            return {k: sub(y) for k, y in x.items()} if isinstance(x, dict) else x
        new = [{'c': 'tail.entry', 'i': [{'op': 'Jump'}], 'p': [], 's': [1]}]
        for k, b in enumerate(bl):
            i = sub(b['i'])
            if k in tails:
                i = i[:-2] + [{'op': 'Jump'}]
            new.append({'c': b['c'], 'i': i, 'p': [x + 1 for x in b['p']], 's': [1] if k in tails else [x + 1 for x in b['s']]})
        order = sorted(tails)
        new[1]['p'] = [0] + [k + 1 for k in order]
        new[1]['i'] = [{'comment': p['n'], 'e': ['%' + p['n']] + [sub(tails[k])[j] for k in order], 'n': names['%' + p['n']][1:], 'op': 'Phi', 'pos': '', 't': p['t']} for j, p in enumerate(f['params'])] + new[1]['i']
        funcs[n] = dict(f, blocks=new)


WALK = {'roles': {'i': 'int', 'node': 'node'}, 'inv': walk_inv, 'measure': 'i', 'cursor': True}
WALKNIL = {'roles': {'i': 'int', 'node': 'node'}, 'inv': walk_nil_inv, 'measure': 'i', 'cursor': True}
GROW = {'roles': {'i': 'int', 'node': 'node'}, 'inv': grow_inv, 'measure': 'i', 'grows': True, 'cursor': True}
GROWMORE = dict(GROW, inv=lambda top, S, R: [('not complete', R['i'] < z(top['args'][1].ln))] + grow_inv(top, S, R))
LINEAR = {'roles': {'i': 'int'}, 'inv': linear_inv, 'measure': 'i'}
BINARY = {'roles': {'lo': 'int', 'hi': 'int'}, 'inv': binary_inv, 'measure': lambda r: r['lo'] - r['hi']}
NEXT = {'roles': {'k': 'int'}, 'inv': next_inv, 'measure': 'k'}
LEAVES = {'roles': {'k': 'int'}, 'inv': walk_leaves_inv, 'measure': 'k'}
SearchChild.schemas = (LINEAR, BINARY)
GetChild.schemas = (LINEAR, BINARY)
GetNode.schemas = (WALK, WALKNIL)
AddNode.schemas = (WALK, GROW, GROWMORE)
RemoveNode.schemas = (WALK,)
Iterate.schemas = (NEXT,)
Walk.schemas = (LEAVES,)
ForRange.schemas = (LEAVES,)
OPS = {
    'C13': [P + 'NewTree'] + [TP + x for x in ('AddNode', 'GetNode', 'RemoveNode', 'Clear')],
    'C14': [TP + 'GetNextNode'],
    'C15': [TP + 'ForRangeLeaves'],
}
PROG = None


def job(n, seconds, seed=0):
    """verify one function (or the lemmas): a picklable report"""
    con = contracts(PROG['funcs'])
    v = Verifier(PROG, con, seconds=seconds)
    v.seed = seed
    if seed:
        v.timeout *= 3
    t = time.time()
    err = None
    try:
        if n is None:
            for nm, S, g in lemmas():
                v.retry = True
                if not v.prove(S, nm, g):
                    err = nm
                    break
        else:
            err = v.verify(n, con[n])
            if err and 'time budget' not in err:
                v.retry = True
                err = v.verify(n, con[n])
    except Unsupported as x:
        err = 'the verifier does not handle: %s' % x
    except Exception:
        err = 'the verifier could not process the code: ' + traceback.format_exc()[-1500:]
    return {'name': n, 'err': err, 'proved': v.proved, 'queries': v.queries, 'solver_s': v.solver_s, 'used': v.used, 'inlined': v.inlined, 'models': v.models, 'time': time.time() - t}


def empty(n, err):
    return {'name': n, 'err': err, 'proved': [], 'queries': 0, 'solver_s': 0, 'used': set(), 'inlined': set(), 'models': set(), 'time': 0}


def run(prog, prop, seconds=150, procs=6, seed=0, only=None):
    """verify the operations of a property and every function whose contract they use: list of reports.
    A new process for every function: nothing that happened before influences the solver."""
    global PROG
    PROG = prog
    tail_loops(prog['funcs'])
    con = contracts(prog['funcs'])
    ops = OPS[prop]
    out = [empty(n, 'the operation is gone') for n in ops if n not in con]
    todo = [None] + [n for n in ops if n in con]
    queue = list(todo)
    # contracts nearly always used, started early
    queue += [n for n in con if n not in queue and '.Node).' in n and EARLY[prop](n)]
    if only is not None:
        out, todo, queue = [], list(only), list(only)
    seen = set(queue)
    ctx = multiprocessing.get_context('fork')
    running, reps = {}, {}

    def work(n, conn):
        try:
            conn.send(job(n, seconds, seed))
        finally:
            conn.close()
            os._exit(0)
    while queue or running:
        while queue and len(running) < procs:
            n = queue.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=work, args=(n, b))
            p.start()
            b.close()
            running[a] = (p, n, time.time())
        for c in multiprocessing.connection.wait(list(running), timeout=1):
            p, n, t = running.pop(c)
            try:
                r = c.recv()
            except EOFError:
                r = empty(n, 'the verifier process ended')
            p.join(5)
            reps[n] = r
            for u in sorted(r['used']):
                if u not in seen and only is None:
                    seen.add(u)
                    queue.append(u)
        for c, (p, n, t) in list(running.items()):
            if time.time() - t > seconds + 90:
                p.kill()
                p.join()
                del running[c]
                reps[n] = empty(n, 'time limit')
    if only is not None:
        return [reps[n] for n in only]
    # only what the operations depend on counts
    need, work = set(), list(todo)
    while work:
        n = work.pop()
        if n in need:
            continue
        need.add(n)
        work.extend(reps[n]['used'])
    return out + [reps[n] for n in sorted(need, key=str)]


EARLY = {'C13': lambda n: 'Next' not in n and 'Leaves' not in n, 'C14': lambda n: 'Next' in n, 'C15': lambda n: 'Leaves' in n}


def main():
    import json
    prog = json.load(open(sys.argv[1]))
    rx = sys.argv[2] if len(sys.argv) > 2 else ''
    if rx in OPS:
        for r in run(prog, rx):
            print(short(str(r['name'])), r['err'], len(r['proved']), '%.1fs' % r['time'])
        return
    con = contracts(prog['funcs'])
    if 'lemma'.startswith(rx) or rx == 'lemma':
        v = Verifier(prog, con, log=print)
        for nm, S, g in lemmas():
            v.prove(S, nm, g)
    for n, c in con.items():
        if rx not in n:
            continue
        v = Verifier(prog, con, log=print if '-v' in sys.argv else None, seconds=200)
        t = time.time()
        try:
            err = v.verify(n, c)
        except Unsupported:
            err = traceback.format_exc()
        print(short(n), 'OK' if err is None else 'FAILED ' + err, '%.1fs' % (time.time() - t), len(v.proved), 'proved', v.queries, 'queries')


if __name__ == '__main__':
    main()
