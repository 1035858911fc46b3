"""Loop summaries.

A loop is summarised by giving every location it changes a closed form in the
iteration counter k: a linear term, a prefix sum, a recurrence, or (for
sequences) a flat-map over the iterations. The closed forms are guessed from
symbolic runs of the body and then verified as an inductive invariant: they
hold for k = 0, and every path from the header in the state for k back to the
header ends in the state for k+1. Only the verified forms are used.
"""
import itertools
import z3
from core import *


class Split(Exception):
    def __init__(self, states):
        self.states = states


class Leaf:
    """one changed location"""

    def __init__(self, slot, path, cls, v0, info=None):
        self.slot, self.path, self.cls, self.v0, self.info = slot, path, cls, v0, info
        self.form = None        # function of k
        self.sym = None         # open symbol
        self.desc = 'open'

    def key(self):
        return (self.slot, self.path)

    def __repr__(self):
        return 'Leaf(%s%s %s %s)' % (self.slot, list(self.path), self.cls, self.desc)


def numerals(t, seen=None):
    if seen is None:
        seen = set()
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_int_value(t):
        yield abs(t.as_long())
    for c in t.children():
        yield from numerals(c, seen)


def is_scalar(v):
    return isinstance(v, (bool, int)) or z3.is_expr(v)


def diff(e, a, b, path, out):
    """collect changed leaves between two values of the same location"""
    if a is b:
        return
    if is_scalar(a) and is_scalar(b):
        if not same(a, b):
            out[path] = 'sc'
        return
    if type(a) is type(b):
        if isinstance(a, (Struct, Arr, Tup)):
            for n, (x, y) in enumerate(zip(a.f, b.f)):
                diff(e, x, y, path + (n,), out)
            return
        if isinstance(a, Str):
            if rope_key(a.rope) != rope_key(b.rope):
                out[path] = 'str'
            return
        if isinstance(a, Builder):
            if rope_key(a.rope) != rope_key(b.rope):
                out[path] = 'bld'
            return
        if isinstance(a, Slice):
            if vkey(a) != vkey(b):
                out[path] = 'cur' if a.obj == b.obj and a.obj is not None else 'acc'
            elif not same(a.nil, b.nil):
                out[path] = 'acc'
            return
        if isinstance(a, Iface) and a.t is not None and a.t == b.t:
            diff(e, a.v, b.v, path + ('v',), out)
            return
        if vkey(a) == vkey(b):
            return
    out[path] = 'other'


def getp(v, path):
    for p in path:
        v = v.v if p == 'v' else v.f[p]
    return v


def setp(v, path, x):
    if not path:
        return x
    p = path[0]
    if p == 'v':
        return Iface(v.t, setp(v.v, path[1:], x))
    f = list(v.f)
    f[p] = setp(f[p], path[1:], x)
    return type(v)(f)


class Summary:
    def __init__(self, e, st, fr, h, src):
        self.e, self.st0, self.h, self.src = e, st, h, src
        self.depth = len(st.frames)
        self.leaves = {}
        self.k = e.ctx.fresh_int('k')
        self.cnt = next(e.ctx.n)
        self.phi0 = e.phi_vals(st, fr, h, src)
        self.meta = {}
        self.invs = []          # candidate invariants: (leaf, template fn(value)->formula)
        self.fn = fr.fn['name']
        self.recs = None
        self.aliases = set()
        self.pass_opens = set()
        self.modded = []
        self.fmtry = True
        self.fixed = []
        self.fmused = None
        self.pv = 0
        self.pvused = False

    # ---- location access
    def slots(self, phis, heap):
        for n, v in phis.items():
            yield ('r', n), v
        for n in self.st0.heap:
            o0 = self.st0.heap[n]
            o = heap.get(n)
            if o is None or o is o0:
                continue
            yield ('h', n), o

    def value0(self, slot):
        if slot[0] == 'r':
            return self.phi0[slot[1]]
        return self.obj_val(self.st0.heap[slot[1]])

    @staticmethod
    def obj_val(o):
        if o.kind == 'arr':
            if all(c[0] == 'U' for c in o.v):
                return Arr([c[1] for c in o.v])
            return Str(o.v)
        return o.v

    def value(self, slot, phis, heap):
        if slot[0] == 'r':
            return phis[slot[1]]
        return self.obj_val(heap[slot[1]])

    def changed(self, cur_phis, cur_heap, o):
        """changed locations of a back outcome relative to the state it started from"""
        out = {}
        for n, v in o.value.items():
            d = {}
            diff(self.e, cur_phis[n], v, (), d)
            for p, c in d.items():
                out[(('r', n), p)] = c
        for n in self.st0.heap:
            a, b = cur_heap.get(n), o.st.heap.get(n)
            if a is b or a is None or b is None:
                continue
            if a.bad is not b.bad or a.grp != b.grp:
                self.meta.setdefault(n, []).append((b.bad, b.grp))
            if a.kind == 'map':
                continue
            d = {}
            diff(self.e, self.obj_val(a), self.obj_val(b), (), d)
            for p, c in d.items():
                if a.kind == 'arr' and p == () and c == 'str':
                    c = 'fill'
                out[(('h', n), p)] = c
        return out

    # ---- states
    def state_at(self, k, bump=False):
        """loop-header state with every leaf at its form in k (open leaves: symbols)"""
        e = self.e
        st = self.st0.clone()
        fr = st.frames[-1]
        phis = dict(self.phi0)
        for lf in self.leaves.values():
            v = lf.form(st, k) if lf.form else self.open_value(st, lf, k)
            if lf.slot[0] == 'r':
                n = lf.slot[1]
                phis[n] = setp(phis[n], lf.path, v)
            else:
                n = lf.slot[1]
                o = st.heap[n]
                if o.kind == 'arr':
                    if lf.path == ():
                        st.heap[n] = o.copy(v=v.rope)
                    else:
                        c = list(o.v)
                        c[lf.path[0]] = U(setp(c[lf.path[0]][1], lf.path[1:], v))
                        st.heap[n] = o.copy(v=tuple(c))
                else:
                    st.heap[n] = o.copy(v=setp(o.v, lf.path, v))
        for n, ms in self.meta.items():
            o = st.heap[n]
            grp = o.grp
            bad = o.bad
            for b, g in ms:
                grp = grp | frozenset(x for x in g if x in st.heap)
                if b is not None:
                    bad = b if bad is None or isinstance(b, int) and b == 0 else bad
            st.heap[n] = o.copy(grp=grp, bad=bad)
        if not isinstance(k, int):
            st.assume(bsimp(k >= 0))
        for lf in self.leaves.values():
            self.type_inv(st, lf, k)
        for f in self.inv_at(k):
            st.assume(f)
        # position at the header
        fr.regs.update(phis)
        fr.prev = self.src
        fr.blk = self.h
        n = 0
        for ins in fr.fn['blocks'][self.h]['i']:
            if ins['op'] != 'Phi':
                break
            n += 1
        fr.ip = n
        return st, phis

    def type_inv(self, st, lf, k):
        """every slice and string value is a valid window (a property of all Go values)"""
        if lf.cls == 'cur':
            o = lf.off(k)
            st.assume(band(ile(0, o), ile(o, lf.end)))
        elif lf.cls == 'strcur':
            o = lf.off(k)
            st.assume(band(ile(0, o), ile(o, lf.end)))

    def open_value(self, st, lf, k):
        e = self.e
        c = e.ctx
        v0 = lf.v0
        if lf.cls == 'sc':
            if lf.sym is None:
                lf.sym = c.fresh('x', z(v0).sort())
            return lf.sym
        if lf.cls == 'cur':
            if lf.sym is None:
                lf.sym = c.fresh('off', INT)
            return self.cur_value(lf, lf.sym)
        if lf.cls == 'strcur':
            if lf.sym is None:
                lf.sym = c.fresh('off', INT)
            return Str(rope_norm((S(lf.q, lf.sym, isub(lf.end, lf.sym)),)))
        if lf.cls in ('acc', 'stracc', 'bldacc'):
            if lf.sym is None:
                q = c.fresh('acc', Q)
                l = c.fresh('accl', INT)
                c.axiom(l >= 0)
                lf.sym = (q, l)
            q, l = lf.sym
            return self.acc_value(st, lf, (S(q, 0, l),), k)
        if lf.cls == 'fill':
            if lf.sym is None:
                lf.sym = c.fresh('fill', Q)
            return Str((S(lf.sym, 0, rope_len(v0.rope)),))
        raise Unsupported('loop in %s changes a location of an unsupported kind (%s)' % (self.fn, lf))

    def cur_value(self, lf, off):
        v0 = lf.v0
        cap = None if v0.cap is None else isub(iadd(v0.off, v0.cap), off)
        return Slice(v0.obj, off, isub(lf.end, off), cap, v0.nil, v0.et)

    def acc_value(self, st, lf, rope, k):
        if lf.cls == 'stracc':
            return Str(rope)
        if lf.cls == 'bldacc':
            return Builder(rope)
        v0 = lf.v0
        o0 = st.heap[v0.obj] if v0.obj is not None else None
        grp = frozenset()
        if o0 is not None:
            grp = o0.grp | {v0.obj}
        oid = self.e.newobj(st, Obj('arr', rope_norm(rope), et=v0.et, grp=grp))
        for m in grp:
            if m in st.heap:
                st.heap[m] = st.heap[m].copy(grp=st.heap[m].grp | {oid})
        nil = band(v0.nil, ieq(k, 0))
        return Slice(oid, 0, rope_len(rope), None, nil, v0.et)

    def run(self, st):
        e = self.e
        s = st.clone()
        fr = s.frames[-1]
        fr.loops[self.h] = 'probe'
        s.cuts.append((self.depth, self.h))
        q, e.quiet = e.quiet, True
        try:
            outs = e.explore(s)
        finally:
            e.quiet = q
        return outs

    # ---- leaf discovery
    def add_leaf(self, slot, path, cls, o):
        e = self.e
        v0 = getp(self.value0(slot), path)
        nv = getp(self.value(slot, o.value, o.st.heap), path)
        lf = Leaf(slot, path, cls, v0)
        if cls == 'cur':
            lf.end = iadd(v0.off, v0.ln)
        elif cls == 'str':
            q, off, ln = e.as_window(self.st0, v0.rope, 'uint8')
            r = nv.rope
            if len(r) == 1 and r[0][0] == 'S' and r[0][1].eq(q) or not r and v0.rope:
                lf.cls = 'strcur'
                lf.q = q
                lf.off0 = off
                lf.end = iadd(off, ln)
            else:
                lf.cls = 'stracc'
        elif cls == 'bld':
            lf.cls = 'bldacc'
        elif cls == 'other':
            raise Unsupported('loop in %s changes a value of an unsupported kind at %s%s' % (self.fn, slot, list(path)))
        lf.off = lambda k, lf=lf: lf.offform(k) if lf.form else lf.sym
        self.leaves[(slot, path)] = lf
        return lf

    def scalar0(self, lf):
        if lf.cls == 'sc':
            return lf.v0
        if lf.cls == 'cur':
            return lf.v0.off
        if lf.cls == 'strcur':
            return lf.off0
        return None

    def next_scalar(self, lf, o):
        v = getp(self.value(lf.slot, o.value, o.st.heap), lf.path)
        if lf.cls == 'sc':
            return v
        if lf.cls == 'cur':
            if not isinstance(v, Slice) or v.obj != lf.v0.obj:
                raise Unsupported('slice variable in %s is both advanced and replaced' % self.fn)
            if not self.e.valid(o.st, ieq(iadd(v.off, v.ln), lf.end)):
                raise Unsupported('slice variable in %s does not keep its end' % self.fn)
            return v.off
        if lf.cls == 'strcur':
            if not v.rope:
                return lf.end
            if len(v.rope) != 1 or not v.rope[0][1].eq(lf.q):
                raise Unsupported('string variable in %s is both advanced and replaced' % self.fn)
            c = v.rope[0]
            if not self.e.valid(o.st, ieq(iadd(c[2], c[3]), lf.end)):
                raise Unsupported('string variable in %s does not keep its end' % self.fn)
            return c[2]

    def next_rope(self, lf, o):
        v = getp(self.value(lf.slot, o.value, o.st.heap), lf.path)
        if isinstance(v, (Str, Builder)):
            return v.rope
        r = self.e.content(o.st, v)
        for c in r:
            if c[0] == 'U':
                for ob in self.e.arg_refs(o.st, c[1], lf.v0.et):
                    self.aliases.add(('flatalias', ob, self.fn))
        return r

    def open_syms(self):
        ids = set()
        for lf in self.leaves.values():
            if lf.form is None and lf.sym is not None:
                if isinstance(lf.sym, tuple):
                    ids.update(s.get_id() for s in lf.sym)
                else:
                    ids.add(lf.sym.get_id())
        return ids

    def sym_ids(self, t):
        return set(free_consts(t))

    def rope_terms(self, r, st, et):
        ts = []
        for c in r:
            if c[0] == 'S':
                ts += [c[1], z(c[2]), z(c[3])]
            else:
                ts += self.e.flat(st, c[1], et)
        return ts

    def delta_pc(self, base, o):
        ids = {c.get_id() for c in base.pc}
        return [c for c in o.st.pc if c.get_id() not in ids]

    def leaf_et(self, lf):
        if lf.cls == 'acc':
            return lf.v0.et
        if lf.cls == 'fill':
            return self.st0.heap[lf.slot[1]].et
        return 'uint8'

    # ---- closing leaves
    def close_pass(self, base, backs):
        """give forms to the open leaves whose step is closed; True on progress"""
        e = self.e
        k = self.k
        progress = False
        opens = self.pass_opens = self.open_syms()
        for lf in list(self.leaves.values()):
            if lf.form is not None:
                continue
            if lf.cls in ('sc', 'cur', 'strcur'):
                news = [self.next_scalar(lf, o) for o in backs]
                x0 = self.scalar0(lf)
                sym = lf.sym
                if z(x0).sort() == INT:
                    ds = [isub(n, sym) for n in news]
                    if all(not (self.sym_ids(d) & opens) for d in ds):
                        if all(same(d, ds[0]) for d in ds) and not self.has_k(ds[0]) and isinstance(self.sk(ds[0]), type(ds[0])) and not self.foreign(ds[0]):
                            d0 = ds[0]
                            self.set_scalar(lf, lambda kk, x0=x0, d0=d0: iadd(x0, imul(d0, kk)), 'linear')
                            progress = True
                            continue
                        cases = self.cases(base, backs, ds, opens)
                        if cases is not None:
                            name, params = e.sum_def(k, cases)
                            self.set_scalar(lf, lambda kk, x0=x0, nm=name, ps=params: iadd(x0, e.sum_at(nm, ps, kk)), 'sum ' + name)
                            lf.sumname = (name, params)
                            progress = True
                            continue
                # value independent of the previous state
                if all(not (self.sym_ids(n) & opens) for n in news):
                    if all(same(n, news[0]) for n in news):
                        t = z(self.sk(news[0]))
                        x = z(x0)

                        def form(kk, t=t, x=x):
                            r = z3.If(z(kk) == 0, x, z3.substitute(t, (self.k, z(iadd(kk, -1)))))
                            return isimp(r) if x.sort() == INT else bsimp(r) if x.sort() == BOOL else vsimp(r)
                        self.set_scalar(lf, form, 'last')
                        progress = True
                        continue
            elif lf.cls in ('acc', 'stracc', 'bldacc'):
                q, l = lf.sym
                if self.last_rope(lf, backs, opens):
                    progress = True
                    continue
                bodies = []
                wait = False
                for o in backs:
                    r = self.next_rope(lf, o)
                    if not r or r[0][0] != 'S' or not r[0][1].eq(q) or not same(r[0][2], 0) or not same(r[0][3], l):
                        ids = set()
                        for t in self.rope_terms(r, o.st, self.leaf_et(lf)):
                            ids |= self.sym_ids(t)
                        own = {q.get_id(), l.get_id()}
                        if not ids & own and ids & opens:
                            wait = True
                            break
                        raise Unsupported('sequence variable in %s is not extended at its end: %s' % (self.fn, e.show(o.st, Str(r)) if lf.cls != 'acc' else r))
                    bodies.append(rope_norm(r[1:]))
                if wait:
                    continue
                et = self.leaf_et(lf)
                ok = True
                for o, b in zip(backs, bodies):
                    for t in self.rope_terms(b, o.st, et):
                        if self.sym_ids(t) & opens:
                            ok = False
                if not ok:
                    continue
                if all(rope_key(b) == rope_key(bodies[0]) for b in bodies):
                    cs = [(True, self.sk_rope(bodies[0], backs[0].st, et))]
                else:
                    conds = self.conds(base, backs, opens)
                    if conds is None:
                        continue
                    cs = [(c, self.sk_rope(b, o.st, et)) for c, b, o in zip(conds, bodies, backs)]
                r0 = lf.v0.rope if lf.cls != 'acc' else e.content(self.st0, lf.v0)
                name, params = e.fm_def(self.merged(backs), k, cs, et)
                fq = e.fm_q(name, params)

                def form(st, kk, lf=lf, r0=r0, fq=fq):
                    n = e.fm_off(fq, kk)
                    return self.acc_value(st, lf, rope_norm(tuple(r0) + (S(fq, 0, n),)), kk)
                lf.form = form
                lf.fq = fq
                lf.desc = 'flat-map ' + name
                progress = True
            elif lf.cls == 'fill':
                if self.close_fill(lf, base, backs, opens):
                    progress = True
        return progress

    def last_rope(self, lf, backs, opens):
        """a sequence that every iteration makes anew: at k it is the one made by iteration k-1
        (true of the first iteration only if the sequence at its start has that form too)"""
        if not backs:
            return False
        et = self.leaf_et(lf)
        rs = [self.next_rope(lf, o) for o in backs]
        ops = {x.get_id() for x in lf.sym}
        for r, o in zip(rs, backs):
            if rope_key(r) != rope_key(rs[0]):
                return False
            for t in self.rope_terms(r, o.st, et):
                if self.sym_ids(t) & (opens | ops):
                    return False
        cs = self.sk_rope(rs[0], backs[0].st, et)
        if any(c[0] == 'U' and not z3.is_expr(c[1]) for c in cs):
            return False

        def form(st, kk):
            sub = (self.k, z(iadd(kk, -1)))
            out = []
            for c in cs:
                if c[0] == 'S':
                    q1 = keep(z3.simplify(z3.substitute(c[1], sub)))
                    self.e.ctx.axiom(qlen(q1) >= 0)
                    out.append(S(q1, isimp(z3.substitute(z(c[2]), sub)), isimp(z3.substitute(z(c[3]), sub))))
                else:
                    out.append(U(keep(z3.simplify(z3.substitute(c[1], sub)))))
            return self.acc_value(st, lf, rope_norm(tuple(out)), kk)
        lf.form = form
        lf.desc = 'last'
        return True

    def merged(self, backs):
        """a state in which the objects of every path exist"""
        s = self.st0.clone()
        for o in backs:
            for n, ob in o.st.heap.items():
                if n not in s.heap:
                    s.heap[n] = ob
        return s

    def close_fill(self, lf, base, backs, opens):
        e = self.e
        et = self.leaf_et(lf)
        parts = []
        L = rope_len(lf.v0.rope)
        for o in backs:
            r = list(o.st.heap[lf.slot[1]].v)
            # leading window, units, trailing window
            pos = 0
            body = []
            start = None
            n = 0
            while n < len(r):
                c = r[n]
                isold = c[0] == 'S' and c[1].eq(lf.sym)
                if isold:
                    if not e.valid(o.st, ieq(c[2], pos)):
                        raise Unsupported('array moved within a loop')
                    if body:
                        if n != len(r) - 1:
                            raise Unsupported('scattered writes in a loop')
                        pos = iadd(pos, c[3])
                        n += 1
                        continue
                    pos = iadd(pos, c[3])
                    start = pos
                else:
                    if start is None:
                        start = pos
                    body.append(c)
                    pos = iadd(pos, chunk_len(c))
                n += 1
            if start is None:
                start = pos
            parts.append((start, rope_norm(body)))
        s0 = parts[0][0]
        bl = rope_len(parts[0][1])
        for s, b in parts:
            if self.sym_ids(z(s)) & opens:
                return False
        if not all(same(s, s0) for s, _ in parts) or not isinstance(bl, int) or bl == 0 or not all(same(rope_len(b), bl) for _, b in parts):
            raise Unsupported('irregular array writes in a loop of ' + self.fn)
        at0 = isimp(z3.substitute(z(s0), (self.k, z3.IntVal(0)))) if not isinstance(s0, int) else s0
        if not same(isimp(z(s0)), iadd(at0, imul(bl, self.k))):
            if not e.valid(base, ieq(s0, iadd(at0, imul(bl, self.k)))):
                raise Unsupported('array writes in a loop are not contiguous in ' + self.fn)
        for (s, b), o in zip(parts, backs):
            for t in self.rope_terms(b, o.st, et):
                if self.sym_ids(t) & opens:
                    return False
        if all(rope_key(b) == rope_key(parts[0][1]) for _, b in parts):
            cs = [(True, self.sk_rope(parts[0][1], backs[0].st, et))]
        else:
            conds = self.conds(base, backs, opens)
            if conds is None:
                return False
            cs = [(c, self.sk_rope(b, o.st, et)) for c, (_, b), o in zip(conds, parts, backs)]
        name, params = e.fm_def(self.merged(backs), self.k, cs, et)
        fq = e.fm_q(name, params)
        r0 = lf.v0.rope

        def form(st, kk):
            n = imul(bl, kk)
            a = e.rope_slice(st, r0, 0, at0) if not same(at0, 0) else ()
            end = iadd(at0, n)
            # r0 must be one window so that its tail needs no case split
            if len(r0) == 1 and r0[0][0] == 'S':
                t = (S(r0[0][1], iadd(r0[0][2], end), isub(L, end)),)
            else:
                t = e.rope_slice(st, r0, end, L)
            return Str(rope_norm(tuple(a) + (S(fq, 0, n),) + tuple(t)))
        lf.form = form
        lf.desc = 'fill ' + name
        return True

    def set_scalar(self, lf, f, desc):
        lf.desc = desc
        lf.scalar = f
        if lf.cls == 'sc':
            lf.form = lambda st, kk: f(kk)
        elif lf.cls == 'cur':
            lf.offform = f
            lf.form = lambda st, kk: self.cur_value(lf, f(kk))
        else:
            lf.offform = f
            lf.form = lambda st, kk: Str(rope_norm((S(lf.q, f(kk), isub(lf.end, f(kk))),)))

    def has_k(self, t):
        return self.k.get_id() in self.sym_ids(t) if not isinstance(t, (bool, int)) else False

    def foreign(self, t):
        """symbols created while running the body"""
        out = []
        if isinstance(t, (bool, int)):
            return out
        opens = self.pass_opens | self.open_syms()
        for i, c in free_consts(t).items():
            nm = c.decl().name()
            if '!' in nm and i != self.k.get_id() and i not in opens:
                try:
                    n = int(nm.rsplit('!', 1)[1])
                except ValueError:
                    continue
                if n > self.cnt and nm not in self.e.qkinds:
                    out.append(c)
        return out

    def sk(self, t):
        """replace symbols created in the body by functions of the iteration"""
        if isinstance(t, (bool, int)):
            return t
        fs = self.foreign(t)
        if not fs:
            return t
        subs = []
        for c in fs:
            f = z3.Function('sk<%s>' % c.decl().name(), INT, c.sort())
            subs.append((c, f(self.k)))
        return keep(z3.substitute(t, *subs))

    def sk_rope(self, r, st, et):
        if not any(self.foreign(t) for t in self.rope_terms(r, st, et)):
            return r
        out = []
        for c in r:
            if c[0] == 'S':
                out.append(S(self.sk(c[1]), isimp(z(self.sk(c[2]))), isimp(z(self.sk(c[3])))))
            else:
                ls = [self.sk(x) for x in self.e.flat(st, c[1], et)]
                v, _ = self.e.unflat(st, et, ls, 0)
                out.append(U(v))
        return tuple(out)

    def conds(self, base, backs, opens):
        r = []
        common = None
        ds = [self.delta_pc(base, o) for o in backs]
        for d in ds:
            ids = {c.get_id() for c in d}
            common = ids if common is None else common & ids
        for d in ds:
            c = band(*[x for x in d if x.get_id() not in common])
            if not isinstance(c, bool) and self.sym_ids(c) & opens:
                return None
            r.append(self.sk(c))
        return r

    def cases(self, base, backs, vals, opens):
        conds = self.conds(base, backs, opens)
        if conds is None:
            return None
        return [(c, self.sk(v)) for c, v in zip(conds, vals)]

    def make_recs(self, base, backs):
        """recurrences for the scalar leaves that are still open"""
        e = self.e
        ls = [lf for lf in self.leaves.values() if lf.form is None and lf.cls in ('sc', 'cur', 'strcur')]
        if not ls:
            return False
        syms = {lf.sym.get_id() for lf in ls}
        others = self.open_syms() - syms
        ds = [self.delta_pc(base, o) for o in backs]
        common = None
        for d in ds:
            ids = {c.get_id() for c in d}
            common = ids if common is None else common & ids
        terms = []
        for lf in ls:
            terms.append(z(self.scalar0(lf)))
        steps = []
        for lf in ls:
            t = None
            for o, d in zip(reversed(backs), reversed(ds)):
                c = band(*[x for x in d if x.get_id() not in common])
                n = z(self.sk(self.next_scalar(lf, o)))
                t = n if t is None else n if n.eq(t) else z3.If(z(self.sk(c)), n, t)
            steps.append(t)
        for t in steps:
            if self.sym_ids(t) & others:
                return False
        # canonical definition: formals for the current values
        cur = [z3.Const('fr!%d!%s' % (n, lf.sym.sort()), lf.sym.sort()) for n, lf in enumerate(ls)]
        sub = [(lf.sym, c) for lf, c in zip(ls, cur)]
        st2 = [z3.simplify(z3.substitute(t, *sub)) for t in steps]
        ts, params = e.canon_terms(terms + st2, self.k, skip=cur)
        key = tuple(t.get_id() for t in ts)
        name = e.ctx.reccache.get(key)
        if name is None:
            name = 'rec#%d' % len(e.ctx.reccache)
            e.ctx.reccache[key] = name
            e.ctx.recs[name] = (ts[:len(ls)], ts[len(ls):], [c.sort() for c in cur])
        for n, lf in enumerate(ls):
            x0 = self.scalar0(lf)

            def f(kk, n=n, x0=x0):
                if isinstance(kk, int) and kk == 0:
                    return x0
                return e.rec_at(name, n, params, kk)
            self.set_scalar(lf, f, 'recurrence %s.%d' % (name, n))
            lf.rec = (name, n, params)
        return True

    # ---- invariants
    def candidates(self, backs, base):
        out = []
        e = self.e
        guards = []
        for o in backs:
            for c in self.delta_pc(base, o):
                guards.append(c)
        out += self.acc_candidates()
        for lf in self.leaves.values():
            if lf.form is not None or lf.cls not in ('sc', 'cur', 'strcur'):
                continue
            x0 = self.scalar0(lf)
            if z(x0).sort() != INT:
                continue
            out.append((lf, lambda x, x0=x0: ile(x0, x), 'not below its initial value'))
            out.append((lf, lambda x, x0=x0: bsimp((z(x) - z(x0)) % 4 == 0), 'moves in steps of 4'))
            for g in guards:
                b = self.upper(g, lf.sym)
                if b is not None and not (self.sym_ids(z(b)) & self.open_syms()) and not self.has_k(z(b)) and not self.foreign(z(b)):
                    out.append((lf, lambda x, b=b: ile(x, b), 'bounded by the guard'))
        return out

    def acc_candidates(self):
        return [(lf, lambda x: bsimp(z(x) % 4 == 0), 'length is a multiple of 4')
                for lf in self.leaves.values() if lf.form is None and lf.cls in ('acc', 'stracc', 'bldacc')]

    def inv0(self, lf):
        """the quantity an invariant talks about: the scalar, or the length of a sequence; before the loop"""
        if lf.cls in ('acc', 'stracc', 'bldacc'):
            return rope_len(lf.v0.rope if lf.cls != 'acc' else self.e.content(self.st0, lf.v0))
        return self.scalar0(lf)

    def invnext(self, lf, o):
        if lf.cls in ('acc', 'stracc', 'bldacc'):
            return rope_len(self.next_rope(lf, o))
        return self.next_scalar(lf, o)

    def invcur(self, lf, k):
        if lf.cls in ('acc', 'stracc', 'bldacc'):
            if lf.form is None:
                return lf.sym[1] if lf.sym is not None else None
            return iadd(self.inv0(lf), self.e.fm_off(lf.fq, k))
        return lf.scalar(k) if lf.form else lf.sym

    def upper(self, g, sym):
        """b if the guard says sym < b or sym <= b"""
        neg = False
        if z3.is_not(g):
            g = g.arg(0)
            neg = True
        if not z3.is_app(g) or g.num_args() != 2 or g.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            return None
        a, b = g.children()
        if not z3.is_int(a):
            return None
        d = isimp(a - b)
        if isinstance(d, int):
            return None
        c0 = isimp(z3.substitute(d, (sym, z3.IntVal(0))))
        c1 = isub(isimp(z3.substitute(d, (sym, z3.IntVal(1)))), c0)
        if c1 == 1:
            return ineg(c0)
        if c1 == -1:
            return c0
        return None

    @staticmethod
    def ev(c, x, k):
        return c[1](x, k) if len(c) > 3 else c[1](x)

    def mod_pass(self, base, backs):
        """counters that wrap around: while the loop goes on, x = (x0 + k) mod m"""
        e = self.e
        opens = self.open_syms()
        ds = [self.delta_pc(base, o) for o in backs]
        if not ds:
            return
        common = set.intersection(*[{c.get_id() for c in d} for d in ds])
        G = band(*[c for c in ds[0] if c.get_id() in common and not (self.sym_ids(c) & opens) and not self.foreign(c)])
        for lf in self.leaves.values():
            if lf.form is not None or lf.cls != 'sc' or not isinstance(lf.v0, int) or isinstance(lf.v0, bool) or lf.v0 < 0:
                continue
            if lf in self.modded or lf.sym is None:
                continue
            self.modded.append(lf)
            ms = set()
            for d in ds:
                for c in d:
                    if lf.sym.get_id() in self.sym_ids(c):
                        for n in numerals(c):
                            for m in (n, n + 1):
                                if max(lf.v0, 1) < m <= 64:
                                    ms.add(m)
            for m in sorted(ms, reverse=True)[:8]:
                def f(x, k, m=m, x0=lf.v0):
                    g = G if isinstance(G, bool) else bsimp(z3.substitute(G, (self.k, z(k))))
                    r = (x0 + k) % m if isinstance(k, int) else (z3.IntVal(x0) + k) % m
                    return bimp(g, bsimp(z(x) == r))
                c = (lf, f, 'counts modulo %d' % m, True)
                if not e.valid(self.st0, self.ev(c, lf.v0, 0)):
                    continue
                old = self.invs
                self.invs = old + [c]
                st, phis = self.state_at(self.k)
                outs = self.run(st)
                ok = True
                for o in outs:
                    if o.kind == 'back' and not e.valid(o.st, self.ev(c, self.next_scalar(lf, o), iadd(self.k, 1))):
                        ok = False
                        break
                if ok:
                    break
                self.invs = old

    def inv_at(self, k):
        out = []
        for c in self.invs:
            x = self.invcur(c[0], k)
            if x is None:
                continue
            c = self.ev(c, x, k)
            if c is not True:
                out.append(c)
        return out

    def houdini(self):
        """keep the candidate invariants that are inductive"""
        e = self.e
        self.invs = self.fixed + [c for c in self.acc_candidates() if e.valid(self.st0, self.ev(c, self.inv0(c[0]), 0))]
        st, phis = self.state_at(self.k)
        outs = self.run(st)
        backs = [o for o in outs if o.kind == 'back']
        cands, seen = [], set()
        for c in self.candidates(backs, st):
            x = self.invcur(c[0], self.k)
            f = self.ev(c, x, self.k)
            key = f if isinstance(f, bool) else f.get_id()
            if key not in seen and e.valid(self.st0, self.ev(c, self.inv0(c[0]), 0)):
                seen.add(key)
                if not isinstance(f, bool):
                    keep(f)
                cands.append(c)
        for _ in range(6):
            if not cands:
                break
            self.invs = self.fixed + cands
            st, phis = self.state_at(self.k)
            outs = self.run(st)
            backs = [o for o in outs if o.kind == 'back']
            keepc = []
            for c in cands:
                ok = True
                for o in backs:
                    try:
                        x = self.invnext(c[0], o)
                    except Unsupported:
                        ok = False
                        break
                    if not e.valid(o.st, self.ev(c, x, iadd(self.k, 1))):
                        ok = False
                        break
                if ok:
                    keepc.append(c)
            if len(keepc) == len(cands):
                break
            cands = keepc
            self.invs = self.fixed + cands
        else:
            self.invs = list(self.fixed)
        return outs, st, phis

    # ---- main
    def solve(self):
        e = self.e
        st, phis = self.state_at(0)
        # discover changed locations from the exact first iteration and from the general one
        for rnd in range(12):
            outs = self.run(st)
            backs = [o for o in outs if o.kind == 'back']
            new = False
            for o in backs:
                for (slot, path), cls in self.changed(phis, st.heap, o).items():
                    # a changed location inside a known leaf or above one
                    hit = False
                    for (s2, p2) in list(self.leaves):
                        if s2 == slot and path[:len(p2)] == p2:
                            hit = True
                    if hit:
                        continue
                    self.add_leaf(slot, path, cls, o)
                    new = True
            if rnd > 0 and not new:
                break
            if not backs and rnd == 0:
                self.noback = True
            if self.e.rewrites and self.fmtry and self.fmused is None:
                self.fm_cursor()
            st, phis = self.state_at(self.k)
        else:
            raise Unsupported('loop analysis of %s does not stabilise' % self.fn)
        if self.pv is not None and self.fmused is None and e.ctx.__dict__.get('parts'):
            self.part_cursor([o for o in outs if o.kind == 'back'])
        if self.leaves:
            outs, st, phis = self.houdini()
        for _ in range(10):
            backs = [o for o in outs if o.kind == 'back']
            if all(lf.form is not None for lf in self.leaves.values()):
                break
            if not self.close_pass(st, backs):
                self.mod_pass(st, backs)
                if not self.make_recs(st, backs):
                    # leave the rest unconstrained
                    break
            self.pass_opens = set()
            st, phis = self.state_at(self.k)
            outs = self.run(st)
        self.pass_opens = set()
        self.havoc = [lf for lf in self.leaves.values() if lf.form is None]
        for lf in self.havoc:
            if lf.cls in ('acc', 'stracc', 'bldacc', 'fill'):
                lf.desc = 'unconstrained'
        # inductive check of the forms actually used
        st, phis = self.state_at(self.k)
        outs = self.run(st)
        self.verify(st, phis, outs)
        self.base, self.outs = st, outs
        return st, outs

    def fm_cursor(self):
        """a cursor into a flat-map that moves from group to group"""
        e = self.e
        for lf in self.leaves.values():
            if lf.form is not None or lf.cls not in ('cur', 'strcur'):
                continue
            rope = self.st0.heap[lf.v0.obj].v if lf.cls == 'cur' else lf.v0.rope
            x0 = self.scalar0(lf)
            pos = 0
            for c in rope:
                if c[0] == 'S' and same(c[2], 0) and (same(pos, x0) or e.valid(self.st0, ieq(pos, x0))):
                    d = e.qdef(c[1])
                    n = e.fm_count(c) if d is not None and d[0] == 'fm' else None
                    if n is not None:
                        fq = c[1]
                        self.set_scalar(lf, lambda kk, x0=pos, fq=fq: iadd(x0, e.fm_off(fq, kk)), 'group of %s' % fq.decl().name())
                        lf.fmcur = fq
                        self.fixed = [(lf, lambda x, k, n=n: band(ile(0, k), ile(k, n)), 'at most the groups', True)]
                        self.invs = self.invs + self.fixed
                        self.fmused = n
                        return True
                pos = iadd(pos, chunk_len(c))
        return False

    def part_cursor(self, backs):
        """cursors that move from part to part of a text (guess number pv)"""
        e = self.e
        ints = []
        for lf in self.leaves.values():
            if lf.form is None and lf.cls == 'sc' and same(lf.v0, 0) and lf.sym is not None:
                if not all(isinstance(isub(self.next_scalar(lf, o), lf.sym), int) for o in backs):
                    ints.append(lf)
        cands = []
        for p in list(e.ctx.parts.values()):
            for lf in self.leaves.values():
                if lf.form is None and lf.cls == 'strcur' and lf.q.eq(p.q) and same(lf.off0, p.off) and same(lf.end, p.end):
                    cands.append((p, lf, None))
                    cands += [(p, lf, i) for i in ints]
        cands += [(p, None, i) for p in list(e.ctx.parts.values()) for i in ints if p.main]
        if self.pv >= min(len(cands), 8):
            return
        p, lf, i = cands[self.pv]
        self.pvused = True
        desc = 'part of the text'
        if i is None:
            self.set_scalar(lf, p.fp, desc)
        elif lf is None:
            self.set_scalar(i, lambda kk: isub(p.fp(kk), p.off), desc)
        else:
            def prev(kk):
                if isinstance(kk, int) and kk == 0:
                    return p.off
                x = e.app('pre' + p.name(), [p.q, p.off, p.end, kk], INT)
                e.ctx.axiom(z3.And(z3.Implies(z(kk) == 0, x == z(p.off)), z3.Implies(z(kk) > 0, x == z(p.fp(iadd(kk, -1))))))
                return x
            self.set_scalar(lf, prev, desc)
            self.set_scalar(i, lambda kk: isub(p.fp(kk), prev(kk)), desc)

    def verify(self, st, phis, outs):
        e = self.e
        # base case
        s0, p0 = self.state_at(0)
        for lf in self.leaves.values():
            if lf.form is None:
                continue
            a = getp(self.value(lf.slot, p0, s0.heap), lf.path)
            if not self.veq(s0, lf, a, lf.v0):
                raise Unsupported('loop invariant of %s does not hold on entry' % self.fn)
        for c in self.invs:
            if not e.valid(self.st0, self.ev(c, self.inv0(c[0]), 0)):
                raise Unsupported('loop bound of %s does not hold on entry' % self.fn)
        k1 = iadd(self.k, 1)
        for o in outs:
            if o.kind != 'back':
                continue
            # every changed location is one of the leaves
            for (slot, path), cls in self.changed(phis, st.heap, o).items():
                if not any(s2 == slot and path[:len(p2)] == p2 for (s2, p2) in self.leaves):
                    raise Unsupported('loop in %s changes an unexpected location' % self.fn)
            s = o.st.clone()
            self.steps(s)
            for lf in self.leaves.values():
                if lf.form is None:
                    continue
                want = lf.form(s, k1)
                got = getp(self.value(lf.slot, o.value, s.heap), lf.path)
                ok = e.forall_paths(s.clone(), lambda t, lf=lf, want=want, got=got: self.veq(t, lf, got, want))
                if not ok:
                    raise Unsupported('loop invariant of %s is not preserved (%s)' % (self.fn, lf))
            for c in self.invs:
                if not e.valid(s, self.ev(c, self.invnext(c[0], o), k1)):
                    raise Unsupported('loop bound of %s is not preserved' % self.fn)

    def steps(self, s):
        """definitions of the closed forms at k+1"""
        e = self.e
        for lf in self.leaves.values():
            if getattr(lf, 'sumname', None):
                e.sum_step(lf.sumname[0], lf.sumname[1], self.k)
            if getattr(lf, 'fq', None) is not None:
                e.fm_step(lf.fq, self.k)
            if getattr(lf, 'rec', None):
                e.rec_step(lf.rec[0], lf.rec[2], self.k)
            if getattr(lf, 'fmcur', None) is not None:
                e.fm_step(lf.fmcur, self.k)

    def veq(self, st, lf, a, b):
        e = self.e
        if lf.cls == 'sc':
            return same(a, b) or e.prove(st, bsimp(z(a) == z(b)))
        if lf.cls == 'cur':
            return a.obj == b.obj and e.prove(st, ieq(a.off, b.off)) and e.prove(st, ieq(a.ln, b.ln))
        et = self.leaf_et(lf)

        def rp(v):
            if isinstance(v, Arr):
                return tuple(U(x) for x in v.f)
            return v.rope if isinstance(v, (Str, Builder)) else e.content(st, v)
        ra, rb = rp(a), rp(b)
        return self.seq_next(st, ra, rb, et, lf)

    def seq_next(self, st, ra, rb, et, lf):
        """ra (explicit) equals rb whose last window is a flat-map prefix"""
        e = self.e
        if rope_key(ra) == rope_key(rb):
            return True
        fq = getattr(lf, 'fq', None)
        if fq is not None:
            # split off(k+1) = off(k) + body(k)
            out = []
            for c in rb:
                if c[0] == 'S' and c[1].eq(fq) and same(c[2], 0):
                    body = e.fm_body(st, fq, self.k) if not (isinstance(c[3], int) and c[3] == 0) else None
                    if body is None:
                        continue
                    off = e.fm_off(fq, self.k)
                    st.assume(ieq(c[3], iadd(off, rope_len(body)))) if not e.valid(st, ieq(c[3], iadd(off, rope_len(body)))) and False else None
                    if not e.valid(st, ieq(c[3], iadd(off, rope_len(body)))):
                        return False
                    out.append(S(fq, 0, off))
                    out.extend(body)
                else:
                    out.append(c)
            rb = rope_norm(out)
        return e.rope_eq(st, ra, rb, et)

    # ---- trip count
    def trip(self):
        """a term equal to k whenever the loop is left through its header test, or None"""
        e = self.e
        k = self.k
        fact = self.fact()
        for o in self.outs:
            if o.kind != 'exit':
                continue
            for c in self.delta_pc(self.base, o):
                for E in [self.fmused] if self.fmused is not None else self.solve_k(c):
                    s = o.st.clone()
                    if fact is not None:
                        try:
                            s.assume(fact.at_raw(iadd(k, -1), k))
                        except Dead:
                            continue
                    if e.ctx.check(s.pc) == 'unsat':
                        continue
                    if e.valid(s, ieq(k, E)):
                        return E
        return None

    def solve_k(self, c):
        k = self.k
        if z3.is_not(c):
            g = c.arg(0)
        else:
            g = c
        if not z3.is_app(g) or g.num_args() != 2 or g.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            return
        a, b = g.children()
        if not z3.is_int(a):
            return
        d = isimp(a - b)
        if isinstance(d, int):
            return
        c0 = isimp(z3.substitute(d, (k, z3.IntVal(0))))
        c1 = isub(isimp(z3.substitute(d, (k, z3.IntVal(1)))), c0)
        if not isinstance(c1, int) or c1 == 0:
            return
        if not same(isimp(z3.simplify(z(d) - z(c0) - c1 * k, som=True)), 0):
            return
        if c1 < 0:
            c0, c1 = ineg(c0), -c1
        m = ineg(c0)
        for extra in (0, 1, -1):
            mm = iadd(m, extra)
            if c1 == 1:
                yield mm
            else:
                n = iadd(mm, c1 - 1)
                yield n // c1 if isinstance(n, int) else isimp(n / c1)
        yield isimp(z3.If(z(m) >= 0, z(m), z3.IntVal(0)))

    def fact(self):
        """what holds in every completed iteration"""
        backs = [o for o in self.outs if o.kind == 'back']
        if not backs:
            return None
        opens = self.open_syms()
        disj = []
        for o in backs:
            cs = []
            for c in self.delta_pc(self.base, o):
                c = self.sk(c)
                if self.sym_ids(c) & opens:
                    continue
                cs.append(c)
            disj.append(band(*cs))
        b = bor(*disj)
        invs = band(*[f for f in self.inv_at(self.k) if not (self.sym_ids(z(f)) & opens)])
        return LoopFact(self.k, b, invs)

    def measure(self):
        """termination: some bounded quantity decreases on every path back to the header"""
        e = self.e
        backs = [o for o in self.outs if o.kind == 'back']
        if not backs:
            return True
        common = None
        cl = {}
        for o in backs:
            ids = set()
            for c in self.delta_pc(self.base, o) + list(self.inv_at(self.k)):
                cl[c.get_id()] = c
                ids.add(c.get_id())
            common = ids if common is None else common & ids
        ms = []
        for i in common:
            c = cl[i]
            neg = z3.is_not(c)
            g = c.arg(0) if neg else c
            parts = g.children() if z3.is_and(g) and not neg else [g]
            for g in parts:
                if not z3.is_app(g) or g.num_args() != 2 or not z3.is_int(g.arg(0)):
                    continue
                a, b = g.children()
                ms += [isimp(a - b), isimp(b - a)]
        for lf in self.leaves.values():
            if lf.cls in ('cur', 'strcur'):
                ms.append(isub(lf.end, lf.off(self.k)))
        for m in ms:
            if isinstance(m, int):
                continue
            if self.check_measure(m, backs):
                return True
        return False

    def check_measure(self, m, backs):
        e = self.e
        k = self.k
        # next value: substitute the leaves' scalars; closed forms: k -> k+1
        for o in backs:
            s = o.st.clone()
            self.steps(s)
            subs = [(k, z(iadd(k, 1)))]
            for lf in self.leaves.values():
                if lf.form is None and lf.cls in ('sc', 'cur', 'strcur'):
                    subs.append((lf.sym, z(self.next_scalar(lf, o))))
            m2 = isimp(z3.substitute(m, *subs))
            if not e.valid(s, band(ilt(m2, m), ile(-8, m))):
                return False
        return True


class LoopFact:
    def __init__(self, k, body, inv):
        self.k, self.body, self.inv = k, body, inv

    def at_raw(self, t, hi):
        g = band(ile(0, t), ilt(t, hi))
        if g is False:
            return True
        b = band(self.body, self.inv)
        if isinstance(b, bool):
            return True if b else bnot(g)
        return bimp(g, bsimp(z3.substitute(b, (self.k, z(t)))))


CACHE = {}


def summarize(e, st, fr, h, src, fmtry=True, pv=0):
    sm = Summary(e, st, fr, h, src)
    sm.pv = pv
    sm.fmtry = fmtry
    sm.noback = False
    try:
        base, outs = sm.solve()
    except Unsupported as ex:
        if e.debug:
            print('loop', sm.fn, h, 'not summarised:', ex, list(sm.leaves.values()))
        if sm.fmused is not None and fmtry:
            return summarize(e, st, fr, h, src, False, pv)
        if sm.pvused:
            return summarize(e, st, fr, h, src, fmtry, pv + 1)
        return unroll(e, st, fr, h, src, str(ex), True)
    pos = None
    for ins in fr.fn['blocks'][h]['i']:
        pos = ins.get('pos') or pos
    term = sm.measure()
    if not term and sm.trip() is None:
        return unroll(e, st, fr, h, src, 'no decreasing measure found for the loop at %s' % pos)
    e.loop_log.append((sm.fn, h, [(lf.slot, lf.path, lf.cls, lf.desc) for lf in sm.leaves.values()], term, len(sm.invs)))
    if e.debug:
        print('loop', sm.fn, h, [(str(lf.slot), lf.path, lf.cls, lf.desc) for lf in sm.leaves.values()], 'term', term, 'invs', [(str(c[0]), c[2]) for c in sm.invs])
    if not term and not e.quiet:
        e.fail(st, 'termination', 'no decreasing measure found for the loop at %s in %s' % (pos, sm.fn))
    elif not e.quiet:
        e.proved.append(('termination', '%s block %d' % (sm.fn, h)))
    if not e.quiet:
        e.proved.append(('loop invariant', '%s block %d: %s' % (sm.fn, h, '; '.join('%s %s' % (lf.slot[1], lf.desc) for lf in sm.leaves.values()))))
    fact = sm.fact()
    E = sm.trip()
    states = []
    # what the iterations did to memory that is not theirs
    events = []
    for o in outs:
        for x in o.st.events:
            if x not in st.events and x not in events:
                events.append(x)
    events += sorted(sm.aliases)

    def final(kk, extra):
        s, phis = sm.state_at(kk)
        f = s.frames[-1]
        f.loops[h] = 'final'
        s.events = s.events + events
        try:
            for c in extra:
                s.assume(c)
        except Dead:
            return
        if fact is not None:
            nf = e.Fact(sm.k, z(bsimp(z(fact.body))), 0, kk)
            ks = list(s.kappas)
            if not isinstance(kk, int):
                ks.append(kk)
            new = [nf]
            if fact.inv is not True:
                new.append(e.Fact(sm.k, z(fact.inv), 0, iadd(kk, 1)))
            try:
                for F in new:
                    for t in ks:
                        for u in (t, iadd(t, -1)):
                            s.assume(F.at(u))
                    s.assume(F.at(0))
                if not isinstance(kk, int):
                    for F in list(s.facts):
                        s.assume(F.at(kk))
                        s.assume(F.at(iadd(kk, -1)))
            except Dead:
                return
            s.facts.extend(new)
        if not isinstance(kk, int):
            s.kappas.append(kk)
        if e.ctx.check(s.pc) == 'unsat':
            return
        states.append(s)
    # forms of havoc leaves must be fresh for each continuation; they are shared symbols of
    # one unknown iteration, which is sound: each continuation is a separate path
    if E is not None:
        final(E, [])
        k2 = e.ctx.fresh_int('k')
        final(k2, [bsimp(k2 >= 0), bnot(ieq(k2, E))])
    else:
        k2 = e.ctx.fresh_int('k')
        final(k2, [bsimp(k2 >= 0)])
    raise Split(states)


def unroll(e, st, fr, h, src, why, peel=False):
    """fall back: execute the loop step by step; the path ends when the guard becomes false"""
    n = fr.loops.get(h)
    n = n if isinstance(n, int) else 0
    if n > e.max_unroll:
        raise Unsupported('loop in %s: %s' % (fr.fn['name'], why))
    fr.loops[h] = n
    key = (fr.fn['name'], h, len(st.frames))
    if peel and key not in st.flags.get('peeled', ()):
        # execute the first iteration on its own, then summarise the others
        st.flags['peeled'] = st.flags.get('peeled', frozenset()) | {key}
        e.jump(st, fr, h, src)
        return None
    st.flags['nosum'] = st.flags.get('nosum', frozenset()) | {key}
    e.jump(st, fr, h, src)
    return None
