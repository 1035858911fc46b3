"""Assumed contracts of the standard library (trusted; listed in the evidence)."""
import z3
from core import *

MODELS = {}


def model(name):
    def deco(f):
        MODELS[name] = f
        return f
    return deco


def noop(name):
    def f(e, st, args, ret):
        return e.finish(st, ret, Tup(()))
    MODELS[name] = f


for _p in ('bytes', 'errors', 'fmt', 'math', 'reflect', 'sort', 'strconv', 'strings', 'sync', 'unsafe', 'encoding/binary', 'math/bits', 'slices', 'cmp', 'unicode/utf8', 'io', 'os'):
    noop(_p + '.init')


def builder(e, st, p):
    o = st.heap[p.obj]
    v = e.walk(st, o.v, p.path)
    if not isinstance(v, Builder):
        raise Unsupported('strings.Builder value')
    return v


def bwrite(e, st, p, rope, ins=None):
    v = builder(e, st, p)
    o = st.heap[p.obj]
    st.heap[p.obj] = o.copy(v=e.upd(o.v, p.path, Builder(rope_norm(tuple(v.rope) + tuple(rope)))))


@model('(*strings.Builder).Grow')
def _(e, st, args, ret):
    n = args[1]
    if isinstance(n, int) and n < 0 or not isinstance(n, int) and e.decide(st, ilt(n, 0)):
        return e.panic(st, 'strings.Builder.Grow: negative count')
    return e.finish(st, ret, Tup(()))


@model('(*strings.Builder).Len')
def _(e, st, args, ret):
    return e.finish(st, ret, rope_len(builder(e, st, args[0]).rope))


@model('(*strings.Builder).String')
def _(e, st, args, ret):
    return e.finish(st, ret, Str(builder(e, st, args[0]).rope))


@model('(*strings.Builder).Write')
def _(e, st, args, ret):
    r = e.content(st, args[1])
    bwrite(e, st, args[0], r)
    return e.finish(st, ret, Tup((rope_len(r), Iface(None))))


@model('(*strings.Builder).WriteString')
def _(e, st, args, ret):
    bwrite(e, st, args[0], args[1].rope)
    return e.finish(st, ret, Tup((rope_len(args[1].rope), Iface(None))))


@model('(*strings.Builder).WriteByte')
def _(e, st, args, ret):
    bwrite(e, st, args[0], (U(args[1]),))
    return e.finish(st, ret, Iface(None))


@model('(*strings.Builder).WriteRune')
def _(e, st, args, ret):
    v = z3.simplify(args[1])
    if not z3.is_bv_value(v):
        raise Unsupported('WriteRune of a variable')
    bs = chr(v.as_long()).encode('utf-8')
    bwrite(e, st, args[0], tuple(U(keep(z3.BitVecVal(b, 8))) for b in bs))
    return e.finish(st, ret, Tup((len(bs), Iface(None))))


@model('errors.New')
def _(e, st, args, ret):
    return e.finish(st, ret, Iface('error!', Opaque('error')))


@model('fmt.Errorf')
def _(e, st, args, ret):
    return e.finish(st, ret, Iface('error!', Opaque('error')))


def const_text(e, v):
    """the bytes of a constant string, or None"""
    out = b''
    for c in v.rope:
        if c[0] == 'U' and z3.is_bv_value(c[1]):
            out += bytes([c[1].as_long()])
        elif c[0] == 'S' and isinstance(c[2], int) and isinstance(c[3], int):
            d = e.qdef(c[1])
            if not d or d[0] != 'const':
                return None
            out += d[1][c[2]:c[2] + c[3]]
        else:
            return None
    return out


def literal(bs):
    return tuple(U(keep(z3.BitVecVal(b, 8))) for b in bs)


def operand(e, st, x, verb, spec, plus):
    """the text of one operand of a formatting function; None if its form is not modelled"""
    if not isinstance(x, Iface) or x.t is None:
        return None
    k = e.T.kind(x.t)
    if verb in 'vs' and any(m in e.methods.get(x.t, {}) for m in ('String', 'Error', 'Format', 'GoString')):
        return None
    if k[0] == 'string':
        return tuple(x.v.rope) if verb in 'vs' and not spec else None
    if k[0] == 'int':
        n = x.v
    elif k[0] == 'bv':
        if verb == 'c' and k[1] == 8 or verb == 'q':
            return None
        n = e.bv2int(st, x.v, k[2])
    else:
        return None
    if verb == 'v':
        verb = 'd'
    if isinstance(n, int):
        if verb in 'dxX':
            return literal(('%' + spec + verb).encode() % n)
        return None
    if verb == 'd' and not spec:
        return decimal(e, n)
    return None


def formatted(e, st, f, xs):
    """the text of fmt.Sprintf for constant formats with the verbs %d %s %v %x %X %%, or None"""
    import re
    f = const_text(e, f)
    if f is None:
        return None
    f = f.decode('latin1')
    rope = ()
    i = k = 0
    for m in re.finditer(r'%(0?[1-9]?)([dsvxX%])', f):
        if '%' in f[i:m.start()]:
            return None
        rope += literal(f[i:m.start()].encode('latin1'))
        i = m.end()
        if m.group(2) == '%':
            if m.group(1):
                return None
            rope += literal(b'%')
            continue
        if k >= len(xs):
            return None
        t = operand(e, st, xs[k], m.group(2), m.group(1), False)
        if t is None:
            return None
        rope += t
        k += 1
    if '%' in f[i:] or k != len(xs):
        return None
    return rope_norm(rope + literal(f[i:].encode('latin1')))


def operands(e, st, v):
    xs = []
    for c in e.content(st, v):
        if c[0] != 'U':
            raise Unsupported('args')
        xs.append(c[1])
    return xs


@model('fmt.Sprintf')
def _(e, st, args, ret):
    try:
        zs = []
        xs = operands(e, st, args[1])
        r = formatted(e, st, args[0], xs)
        if r is not None:
            return e.finish(st, ret, Str(r))
        zs += e.flat(st, args[0], 'string')
        for c in xs:
            zs.append(e.iface_term(st, c))
        q = e.app('sprintf%d' % len(zs), zs, Q)
    except Unsupported:
        q = e.ctx.fresh('sprintf', Q)
    e.ctx.axiom(qlen(q) >= 0)
    return e.finish(st, ret, Str((S(q, 0, keep(qlen(q))),)))


@model('fmt.Fprintf')
def _(e, st, args, ret):
    w = args[0]
    if not isinstance(w, Iface) or w.t is None or e.T.canon(w.t) != '*strings.Builder':
        raise Unsupported('Fprintf to ' + str(w)[:60])
    r = formatted(e, st, args[1], operands(e, st, args[2]))
    if r is None:
        raise Unsupported('format')
    bwrite(e, st, w.v, r)
    return e.finish(st, ret, Tup((rope_len(r), Iface(None))))


def sprint(e, st, xs):
    rope = ()
    for i, x in enumerate(xs):
        t = operand(e, st, x, 'v', '', False)
        if t is None:
            raise Unsupported('Sprint of ' + str(x)[:60])
        if i and not any(e.T.kind(y.t)[0] == 'string' for y in xs[i - 1:i + 1]):
            rope += literal(b' ')
        rope += t
    return rope_norm(rope)


@model('fmt.Sprint')
def _(e, st, args, ret):
    return e.finish(st, ret, Str(sprint(e, st, operands(e, st, args[0]))))


@model('fmt.Fprint')
def _(e, st, args, ret):
    w = args[0]
    if not isinstance(w, Iface) or w.t is None or e.T.canon(w.t) != '*strings.Builder':
        raise Unsupported('Fprint to ' + str(w)[:60])
    r = sprint(e, st, operands(e, st, args[1]))
    bwrite(e, st, w.v, r)
    return e.finish(st, ret, Tup((rope_len(r), Iface(None))))


@model('fmt.Println')
def _(e, st, args, ret):
    return e.finish(st, ret, Tup((e.ctx.fresh_int('n'), Iface(None))))


@model('fmt.Printf')
def _(e, st, args, ret):
    return e.finish(st, ret, Tup((e.ctx.fresh_int('n'), Iface(None))))


def decimal(e, n):
    """the decimal digits of the integer n, with a sign if it is negative"""
    if isinstance(n, int):
        return literal(str(n).encode())
    q = e.app('dec', [n], Q)
    e.qkinds['dec'] = ('dec',)
    dec_axioms(e, q)
    return (S(q, 0, keep(qlen(q))),)


def dec_axioms(e, q):
    e.ctx.axiom(qlen(q) >= 1)
    e.ctx.axiom(qlen(q) <= 20)


def fmtnum(signed):
    def f(e, st, args, ret):
        base = args[1]
        if not same(base, 10):
            raise Unsupported('base')
        return e.finish(st, ret, Str(decimal(e, e.bv2int(st, args[0], signed))))
    return f


MODELS['strconv.FormatUint'] = fmtnum(False)
MODELS['strconv.FormatInt'] = fmtnum(True)


@model('strconv.Itoa')
def _(e, st, args, ret):
    return e.finish(st, ret, Str(decimal(e, args[0])))


def appnum(signed):
    def f(e, st, args, ret):
        if not same(args[2], 10):
            raise Unsupported('base')
        r = e.append(st, args[0], Frozen(decimal(e, e.bv2int(st, args[1], signed)), 'uint8'), {})
        return e.finish(st, ret, r)
    return f


MODELS['strconv.AppendUint'] = appnum(False)
MODELS['strconv.AppendInt'] = appnum(True)


# ---- parts of a text between separators
# cnt(q,c,off,end): number of bytes c in q[off:end); nx(q,c,p,end): position of the first c at or after p, or end;
# fp(q,c,off,end,k): start of part k: fp(0) = off, fp(k+1) = nx(fp(k)) + 1.

def sep_name(kind, c):
    return '%s!%02x' % (kind, c)


def nx_at(e, st, q, c, p, end):
    x = e.app(sep_name('nx', c), [q, p, end], INT)
    e.ctx.axiom(z3.And(z(p) <= x, x <= z(end)))
    return x


class Parts:
    """the parts of q[off:end) separated by the byte c"""

    def __init__(self, e, q, off, end, c):
        self.e, self.q, self.off, self.end, self.c = e, q, off, end, c
        self.cnt = e.app(sep_name('cnt', c), [q, off, end], INT)
        e.ctx.axiom(self.cnt >= 0)
        e.ctx.axiom(self.cnt <= z(end) - z(off))
        self.fm = None
        self.main = False

    def name(self):
        return sep_name('fp', self.c)

    def fp(self, k):
        e = self.e
        if isinstance(k, int) and k == 0:
            return self.off
        self.inst(k)
        return self.raw(k)

    def raw(self, k):
        return self.e.app(sep_name('fp', self.c), [self.q, self.off, self.end, k], INT) if not (isinstance(k, int) and k == 0) else self.off

    def inst(self, k):
        e = self.e
        if isinstance(k, int) and k == 0:
            e.ctx.axiom(e.app(sep_name('fp', self.c), [self.q, self.off, self.end, 0], INT) == z(self.off))
        for j in (iadd(k, -1), k):
            if isinstance(j, int) and j < 0:
                continue
            f, f1 = z(self.raw(j)), z(self.raw(iadd(j, 1)))
            x = e.app(sep_name('nx', self.c), [self.q, f, self.end], INT)
            jz = z(j)
            e.ctx.axiom(z3.Implies(jz == 0, f == z(self.off)))
            e.ctx.axiom(z3.Implies(z3.And(jz >= 0, jz <= self.cnt),
                                   z3.And(z(self.off) <= f, f <= x, x <= z(self.end), f1 == x + 1, (x == z(self.end)) == (jz == self.cnt))))
            if self.fm is not None:
                q, n = self.fm
                e.fm_step(q, j)
                o = z(e.fm_off(q, j))
                e.ctx.axiom(z3.Implies(z3.And(jz >= 1, jz <= z(n)), f == o + 1))
                e.ctx.axiom(z3.Implies(jz == 0, f == 0))

    def nx(self, k):
        return nx_at(self.e, None, self.q, self.c, self.fp(k), self.end)


def parts_of(e, st, rope, c, main=True):
    """Parts of a text (registered for the loops over it)"""
    q, off, ln = e.as_window(st, rope, 'uint8')
    end = iadd(off, ln)
    tab = e.ctx.__dict__.setdefault('parts', {})
    key = (q.get_id(), z(off).get_id(), z(end).get_id(), c)
    keep(q), keep(z(off)), keep(z(end))
    p = tab.get(key)
    if p is None:
        p = tab[key] = Parts(e, q, off, end, c)
        d = e.qdef(q)
        if d is not None and d[0] == 'fm' and same(off, 0):
            n = e.fm_count(S(q, 0, ln))
            if n is not None and joined(e, st, q, n, c):
                p.fm = (q, n)
                # n texts without c, joined by c
                e.ctx.axiom(z3.Implies(z(n) >= 1, p.cnt == z(n) - 1))
                e.ctx.axiom(z3.Implies(z(n) == 0, z(e.fm_off(q, n)) == 0))
    p.main = p.main or main
    return p


def sepfree(e, c, rope):
    for x in rope:
        if x[0] == 'U':
            v = z3.simplify(x[1])
            if not z3.is_bv_value(v) or v.as_long() == c:
                return False
        else:
            d = e.qdef(x[1])
            if d is None or d[0] != 'dec' or chr(c) in '-0123456789':
                return False
    return True


def joined(e, st, q, n, c):
    """every group of the flat-map but the first is c followed by a text without c, the first has no c"""
    s = st.clone()
    if not e.forall_paths(s, lambda t: sepfree(e, c, e.fm_body(t, q, 0))):
        return False
    j = e.ctx.fresh_int('pj')
    s = st.clone()
    s.assume(bsimp(j >= 1))

    def task(t):
        r = e.fm_body(t, q, j)
        return bool(r) and r[0][0] == 'U' and z3.is_bv_value(z3.simplify(r[0][1])) and z3.simplify(r[0][1]).as_long() == c and sepfree(e, c, r[1:])
    return e.forall_paths(s, task)


def sep_byte(e, st, v):
    if isinstance(v, Str):
        r = v.rope
        if len(r) != 1 or r[0][0] != 'U':
            raise Unsupported('separator')
        v = r[0][1]
    v = z3.simplify(v)
    if not z3.is_bv_value(v):
        raise Unsupported('separator')
    return v.as_long()


def index_byte(e, st, rope, c):
    """position of the first c, or None; decided path by path"""
    pos = 0
    rope = list(rope_norm(rope))
    while rope:
        x = rope.pop(0)
        if x[0] == 'U':
            if e.decide(st, bsimp(x[1] == c)):
                return pos
            pos = iadd(pos, 1)
            continue
        if sepfree(e, c, (x,)):
            pos = iadd(pos, x[3])
            continue
        end = iadd(x[2], x[3])
        parts_of(e, st, (x,), c, False)
        n = nx_at(e, st, x[1], c, x[2], end)
        if e.decide(st, bsimp(n < z(end))):
            st.assume(bsimp(z(e.at(st, x[1], n, 'uint8')) == c)) if e.qdef(x[1]) is None else None
            return iadd(pos, isub(n, x[2]))
        pos = iadd(pos, x[3])
    return None


def m_index(e, st, args, ret):
    r = index_byte(e, st, args[0].rope, sep_byte(e, st, args[1]))
    return e.finish(st, ret, -1 if r is None else r)


MODELS['strings.IndexByte'] = m_index
MODELS['strings.Index'] = m_index


@model('strings.IndexRune')
def _(e, st, args, ret):
    c = sep_byte(e, st, args[1])
    if c >= 128:
        raise Unsupported('separator')
    r = index_byte(e, st, args[0].rope, c)
    return e.finish(st, ret, -1 if r is None else r)


@model('strings.Contains')
def _(e, st, args, ret):
    return e.finish(st, ret, index_byte(e, st, args[0].rope, sep_byte(e, st, args[1])) is not None)


@model('strings.Cut')
def _(e, st, args, ret):
    s = args[0].rope
    r = index_byte(e, st, s, sep_byte(e, st, args[1]))
    if r is None:
        return e.finish(st, ret, Tup((args[0], Str(()), False)))
    return e.finish(st, ret, Tup((Str(e.rope_slice(st, s, 0, r)), Str(e.rope_slice(st, s, iadd(r, 1), rope_len(s))), True)))


@model('strings.Count')
def _(e, st, args, ret):
    c = sep_byte(e, st, args[1])
    n = 0
    for x in rope_norm(args[0].rope):
        if x[0] == 'U':
            if e.decide(st, bsimp(x[1] == c)):
                n = iadd(n, 1)
        elif not sepfree(e, c, (x,)):
            n = iadd(n, parts_of(e, st, (x,), c).cnt)
    return e.finish(st, ret, n)


@model('strings.Split')
def _(e, st, args, ret):
    c = sep_byte(e, st, args[1])
    p = parts_of(e, st, args[0].rope, c)
    k = e.ctx.fresh_int('k')
    f = p.fp(k)
    x = nx_at(e, st, p.q, c, f, p.end)
    name, params = e.fm_def(st, k, [(True, (U(Str((S(p.q, f, isub(x, f)),))),))], 'string')
    q = e.fm_q(name, params)
    n = iadd(p.cnt, 1)
    st.facts.append(e.Fact(k, z3.And(f <= x, x <= z(p.end), z(p.off) <= f), 0, n))
    return e.finish(st, ret, e.mkslice(st, (S(q, 0, n),), 'string', cap=n))


@model('strings.Join')
def _(e, st, args, ret):
    sep = tuple(args[1].rope)
    out = []
    first = True
    for c in e.content(st, args[0]):
        if c[0] == 'U':
            out += list(() if first else sep) + list(c[1].rope)
            first = False
            continue
        q, off, n = c[1:]
        k = e.ctx.fresh_int('k')
        st2 = st.clone()
        st2.assume(bsimp(z3.And(k >= 0, k < z(n))))
        v = e.at(st2, q, iadd(off, k), 'string')
        cases = [(True, sep + tuple(v.rope))]
        if first:
            cases.insert(0, (k == 0, tuple(v.rope)))
        name, params = e.fm_def(st2, k, cases, 'uint8')
        fq = e.fm_q(name, params)
        out.append(S(fq, 0, e.fm_off(fq, n)))
        if first and len(e.content(st, args[0])) > 1:
            raise Unsupported('strings.Join')
    return e.finish(st, ret, Str(rope_norm(out)))


def part_text(e, st, rope):
    """the text itself, when it is a part of joined texts"""
    if len(rope) != 1 or rope[0][0] != 'S':
        return rope
    q, off, ln = rope[0][1:]
    for p in e.ctx.__dict__.get('parts', {}).values():
        if p.fm is None or not p.q.eq(q):
            continue
        o = z(off)
        if z3.is_app(o) and o.decl().name() == sep_name('fp', p.c):
            k = isimp(o.children()[-1])
        elif same(off, p.off):
            k = 0
        else:
            continue
        p.inst(k)
        if e.valid(st, band(ile(0, k), ilt(k, p.fm[1]), ieq(iadd(off, ln), isub(p.raw(iadd(k, 1)), 1)))):
            b = e.fm_body(st, q, k)
            if b and b[0][0] == 'U':
                b = b[1:]
            return b
    return rope


@model('strconv.ParseUint')
def _(e, st, args, ret):
    base, bits = args[1], args[2]
    if not same(base, 10) or not isinstance(bits, int) or bits not in (8, 16, 32, 64):
        raise Unsupported('ParseUint base or size')
    r = rope_norm(part_text(e, st, rope_norm(args[0].rope)))
    err = Iface('error!', Opaque('error'))
    zero = keep(z3.BitVecVal(0, 64))
    if not r:
        return e.finish(st, ret, Tup((zero, err)))
    if len(r) == 1 and r[0][0] == 'S' and e.qdef(r[0][1]) == ('dec',) and same(r[0][2], 0) and same(r[0][3], isimp(qlen(r[0][1]))):
        n = r[0][1].arg(0)
        if e.decide(st, bsimp(z3.And(n >= 0, n < (1 << bits)))):
            return e.finish(st, ret, Tup((e.int2bv(st, isimp(n), 64), Iface(None))))
        return e.finish(st, ret, Tup((e.ctx.fresh('pu', z3.BitVecSort(64)), err)))
    q, off, ln = e.as_window(st, r, 'uint8')
    ok = e.app('pok%d' % bits, [q, off, ln], BOOL)
    e.ctx.axiom(z3.Implies(ok, z(ln) > 0))
    if e.decide(st, ok):
        v = e.app('pval%d' % bits, [q, off, ln], z3.BitVecSort(bits))
        return e.finish(st, ret, Tup((vsimp(z3.ZeroExt(64 - bits, v)) if bits < 64 else v, Iface(None))))
    return e.finish(st, ret, Tup((e.ctx.fresh('pu', z3.BitVecSort(64)), err)))


@model(('github.com/alexispb/mygosnmp/internal.StructString'))
def _(e, st, args, ret):
    # the lemma zlPduText proves that the text form of a pdu is found; nothing about the result
    if not (isinstance(args[0], Iface) and args[0].t == 'github.com/alexispb/mygosnmp/agentx.Pdu' and same(args[1], 1)):
        raise Unsupported('text form of another value')
    q = e.ctx.fresh('structstring', Q)
    e.ctx.axiom(qlen(q) >= 0)
    return e.finish(st, ret, Str((S(q, 0, keep(qlen(q))),)))


@model('bytes.Equal')
def _(e, st, args, ret):
    r = e.seq_eq(st, e.content(st, args[0]), e.content(st, args[1]), 'uint8')
    return e.finish(st, ret, r)


def has_affix(e, st, s, t, front):
    """does the string s start (end) with t?  decided path by path"""
    n, m = rope_len(s), rope_len(t)
    c = ile(m, n)
    if not isinstance(c, bool):
        c = e.decide(st, c)
    if not c:
        return False
    part = e.rope_slice(st, s, 0, m) if front else e.rope_slice(st, s, isub(n, m), n)
    r = e.seq_eq(st, part, t, 'uint8')
    if not isinstance(r, bool):
        r = e.decide(st, r)
    return r


def trim(front):
    def f(e, st, args, ret):
        s, t = args[0].rope, args[1].rope
        if has_affix(e, st, s, t, front):
            n, m = rope_len(s), rope_len(t)
            return e.finish(st, ret, Str(e.rope_slice(st, s, m, n) if front else e.rope_slice(st, s, 0, isub(n, m))))
        return e.finish(st, ret, args[0])
    return f


MODELS['strings.TrimSuffix'] = trim(False)
MODELS['strings.TrimPrefix'] = trim(True)


def hasfix(front):
    def f(e, st, args, ret):
        return e.finish(st, ret, has_affix(e, st, args[0].rope, args[1].rope, front))
    return f


MODELS['strings.HasPrefix'] = hasfix(True)
MODELS['strings.HasSuffix'] = hasfix(False)
