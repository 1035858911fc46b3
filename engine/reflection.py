"""Assumed contracts of package reflect, for values whose static type is known.

A reflect.Value is a Go value with its type; what reflect reports about types
(names, fields, kinds, method sets) is taken from the type checker's tables."""
import z3
from core import *
from models import MODELS, builder, bwrite

KINDS = ['Invalid', 'Bool', 'Int', 'Int8', 'Int16', 'Int32', 'Int64', 'Uint', 'Uint8', 'Uint16', 'Uint32', 'Uint64', 'Uintptr',
         'Float32', 'Float64', 'Complex64', 'Complex128', 'Array', 'Chan', 'Func', 'Interface', 'Map', 'Pointer', 'Slice',
         'String', 'Struct', 'UnsafePointer']
COMPOSITE = {'array': 'Array', 'chan': 'Chan', 'func': 'Func', 'iface': 'Interface', 'map': 'Map', 'ptr': 'Pointer', 'slice': 'Slice', 'struct': 'Struct'}
NAMES = {'bool': 'Bool', 'int': 'Int', 'int8': 'Int8', 'int16': 'Int16', 'int32': 'Int32', 'rune': 'Int32', 'int64': 'Int64', 'uint': 'Uint',
         'uint8': 'Uint8', 'byte': 'Uint8', 'uint16': 'Uint16', 'uint32': 'Uint32', 'uint64': 'Uint64', 'uintptr': 'Uintptr', 'string': 'String',
         'float32': 'Float32', 'float64': 'Float64'}


class RVal(Val):
    """a reflect.Value (t is None: the zero Value); fn: the method it stands for"""
    __slots__ = ('t', 'v', 'ro', 'fn')

    def __init__(self, t=None, v=None, ro=False, fn=None):
        self.t, self.v, self.ro, self.fn = t, v, ro, fn


class RType(Val):
    """a reflect.Type; ins, outs: of a method"""
    __slots__ = ('t', 'ins', 'outs')

    def __init__(self, t, ins=None, outs=None):
        self.t, self.ins, self.outs = t, ins, outs


def kindname(e, t):
    e2 = e.T.under(t)[1]
    if e2['k'] == 'basic':
        n = NAMES.get(e2['name'])
        if n is None:
            raise Unsupported('kind of ' + t)
        return n
    if e2['k'] in COMPOSITE:
        return COMPOSITE[e2['k']]
    raise Unsupported('kind of ' + t)


def kval(n):
    return keep(z3.BitVecVal(KINDS.index(n), 64))


def text(s):
    return Str(tuple(U(keep(z3.BitVecVal(b, 8))) for b in s.encode()))


def tname(t):
    """the name reflect prints: packages by their last element"""
    import re
    return re.sub(r'[\w./-]*/', '', t)


def rv(name):
    def deco(f):
        def g(e, st, args, ret):
            if not isinstance(args[0], RVal):
                raise Unsupported('reflection on an unknown value')
            return f(e, st, args, ret)
        MODELS['(reflect.Value).' + name] = g
        return f
    return deco


def cname(v):
    bs = []
    for c in v.rope:
        if c[0] != 'U' or not z3.is_bv_value(c[1]):
            raise Unsupported('reflection by a computed name')
        bs.append(c[1].as_long())
    return bytes(bs).decode()


def valueof(e, st, args, ret):
    x = args[0]
    if not isinstance(x, Iface):
        raise Unsupported('reflection on an unknown value')
    return e.finish(st, ret, RVal(x.t, x.v))


MODELS['reflect.ValueOf'] = valueof


@rv('IsValid')
def _(e, st, args, ret):
    return e.finish(st, ret, args[0].t is not None or args[0].fn is not None)


@rv('Kind')
def _(e, st, args, ret):
    v = args[0]
    return e.finish(st, ret, kval('Func' if v.fn else 'Invalid' if v.t is None else kindname(e, v.t)))


@rv('Type')
def _(e, st, args, ret):
    v = args[0]
    if v.fn:
        f = e.funcs[v.fn]
        return e.finish(st, ret, RType(None, [p['t'] for p in f['params'][1:]], list(f['results'])))
    if v.t is None:
        return e.panic(st, 'reflect: Type of the zero Value')
    return e.finish(st, ret, RType(v.t))


def methods(e, t):
    m = e.methods.get(t)
    if m is None:
        ct = e.T.canon(t)
        m = next((ms for x, ms in e.methods.items() if e.T.canon(x) == ct), {})
    return m


@rv('MethodByName')
def _(e, st, args, ret):
    v, n = args[0], cname(args[1])
    if v.t is None or v.fn:
        return e.panic(st, 'reflect: MethodByName of the zero Value')
    if kindname(e, v.t) == 'Interface':
        if n in (e.T.under(v.t)[1].get('methods') or []):
            raise Unsupported('method by name of an interface')
        return e.finish(st, ret, RVal())
    f = methods(e, v.t).get(n) if n[:1].isupper() else None
    if f is None:
        return e.finish(st, ret, RVal())
    return e.finish(st, ret, RVal(v.t, v.v, v.ro, f))


# methods which only append a text that depends on their receiver: lemma that they return normally
TOTAL = {}


def total_lemmas(e):
    """zlText_<Type>: the method Fprint of the type returns normally (proved as a lemma of the same check)"""
    if '_totals' not in e.prog:
        out = {}
        for n in e.funcs:
            pkg, _, s = n.rpartition('.')
            if s.startswith('zlText_'):
                out['(%s.%s).Fprint' % (pkg, s[7:])] = n
        e.prog['_totals'] = out
    return e.prog['_totals']


@rv('Call')
def _(e, st, args, ret):
    v = args[0]
    if not v.fn:
        return e.panic(st, 'reflect: Call of a value that is no function')
    if v.ro:
        return e.panic(st, 'reflect: Call of a method of an unexported field')
    f = e.funcs[v.fn]
    xs = []
    for c in e.content(st, args[1]):
        if c[0] != 'U':
            raise Unsupported('reflect.Call with computed arguments')
        xs.append(c[1])
    want = [p['t'] for p in f['params'][1:]]
    if len(xs) != len(want) or any(not isinstance(x, RVal) or x.t is None or e.T.canon(x.t) != e.T.canon(t) for x, t in zip(xs, want)):
        return e.panic(st, 'reflect: Call with arguments of the wrong number or type')
    if v.fn in total_lemmas(e) and [e.T.canon(t) for t in want] == ['*strings.Builder'] and not f['results']:
        # proved to return normally: appends some text that depends on the receiver
        e.used_models.add('%s returns normally (proved: %s) and appends a text' % (v.fn, total_lemmas(e)[v.fn].rsplit('.', 1)[-1]))
        q = e.app('text<%s>' % v.fn, e.flat(st, v.v, v.t), Q)
        n = e.app('textlen<%s>' % v.fn, e.flat(st, v.v, v.t), INT)
        e.ctx.axiom(n >= 0)
        e.ctx.axiom(qlen(q) == n)
        bwrite(e, st, xs[0].v, (S(q, 0, n),))
        return e.finish(st, ret, e.mkslice(st, (), 'reflect.Value'))
    name = 'reflect.call:' + v.fn
    if name not in e.funcs:
        ps = ['a%d' % i for i in range(len(f['params']))]
        code = [{'op': 'Call', 'n': 'r', 'pos': 'reflect', 'call': {'args': ['%' + p for p in ps], 'v': '@f:' + v.fn}},
                {'op': 'Call', 'n': 's', 'pos': 'reflect', 'call': {'args': ['%r', '%fn'], 'v': '@f:reflect.results'}},
                {'op': 'Return', 'pos': 'reflect', 'r': ['%s']}]
        e.funcs[name] = {'name': name, 'short': 'call', 'pkg': 'reflect', 'params': [{'n': p, 't': q['t']} for p, q in zip(ps, f['params'])] + [{'n': 'fn', 't': 'string'}],
                         'freevars': [], 'results': ['[]reflect.Value'], 'blocks': [{'c': 'entry', 'i': code, 'p': [], 's': []}], 'pos': 'reflect', 'synthetic': 'reflect', 'sig': f['sig']}
    return e.push(st, name, [v.v] + [x.v for x in xs] + [v.fn], ret)


def results(e, st, args, ret):
    r, fn = args
    ts = e.funcs[fn]['results']
    vs = [] if not ts else [r] if len(ts) == 1 else list(r.f)
    return e.finish(st, ret, e.mkslice(st, tuple(U(RVal(t, x)) for t, x in zip(ts, vs)), 'reflect.Value'))


MODELS['reflect.results'] = results


@rv('NumField')
def _(e, st, args, ret):
    v = args[0]
    if v.fn or v.t is None or kindname(e, v.t) != 'Struct':
        return e.panic(st, 'reflect: NumField of a value that is no struct')
    return e.finish(st, ret, len(e.T.under(v.t)[1]['fields'] or []))


@rv('Field')
def _(e, st, args, ret):
    v, i = args
    if v.fn or v.t is None or kindname(e, v.t) != 'Struct':
        return e.panic(st, 'reflect: Field of a value that is no struct')
    if not isinstance(i, int):
        raise Unsupported('reflection on a computed field')
    fs = e.T.under(v.t)[1]['fields'] or []
    if not 0 <= i < len(fs):
        return e.panic(st, 'reflect: Field index out of range')
    return e.finish(st, ret, RVal(fs[i]['t'], v.v.f[i], v.ro or not fs[i]['n'][:1].isupper()))


@rv('Interface')
def _(e, st, args, ret):
    v = args[0]
    if v.fn or v.t is None:
        return e.panic(st, 'reflect: Interface of the zero Value')
    if v.ro:
        return e.panic(st, 'reflect: Interface of an unexported field')
    return e.finish(st, ret, v.v if kindname(e, v.t) == 'Interface' else Iface(v.t, v.v))


def numeric(name, signed):
    @rv(name)
    def _(e, st, args, ret):
        v = args[0]
        k = None if v.fn or v.t is None else kindname(e, v.t)
        if k is None or not k.startswith('Int' if signed else 'Uint') or k == 'Interface':
            return e.panic(st, 'reflect: %s of a value of another kind' % name)
        kk = e.kind(v.t)
        x = v.v
        if kk[0] == 'int':
            x = e.int2bv(st, x, 64)
        elif kk[1] < 64:
            x = vsimp((z3.SignExt if signed else z3.ZeroExt)(64 - kk[1], x))
        return e.finish(st, ret, x)


numeric('Int', True)
numeric('Uint', False)


@rv('Bool')
def _(e, st, args, ret):
    v = args[0]
    if v.fn or v.t is None or kindname(e, v.t) != 'Bool':
        return e.panic(st, 'reflect: Bool of a value of another kind')
    return e.finish(st, ret, v.v)


@rv('String')
def _(e, st, args, ret):
    v = args[0]
    if v.fn is None and v.t is not None and kindname(e, v.t) == 'String':
        return e.finish(st, ret, v.v)
    return e.finish(st, ret, text('<Value>'))


@rv('Len')
def _(e, st, args, ret):
    v = args[0]
    k = None if v.fn or v.t is None else kindname(e, v.t)
    if k == 'Slice':
        return e.finish(st, ret, v.v.ln)
    if k == 'String':
        return e.finish(st, ret, rope_len(v.v.rope))
    if k == 'Array':
        return e.finish(st, ret, e.kind(v.t)[2])
    if k in ('Map', 'Chan', 'Pointer'):
        raise Unsupported('reflect: Len of ' + k)
    return e.panic(st, 'reflect: Len of a value of another kind')


@rv('Index')
def _(e, st, args, ret):
    v, i = args
    k = None if v.fn or v.t is None else kindname(e, v.t)
    if k == 'Slice':
        if not e.in_bounds(st, i, v.v.ln):
            return e.panic(st, 'reflect: index out of range')
        return e.finish(st, ret, RVal(e.kind(v.t)[1], e.load(st, Ptr(v.v.obj, (('i', iadd(v.v.off, i)),))), v.ro))
    if k in ('Array', 'String'):
        raise Unsupported('reflect: Index of ' + k)
    return e.panic(st, 'reflect: Index of a value of another kind')


@rv('IsNil')
def _(e, st, args, ret):
    v = args[0]
    k = 'Func' if v.fn else None if v.t is None else kindname(e, v.t)
    if v.fn:
        return e.finish(st, ret, False)
    if k == 'Interface':
        return e.finish(st, ret, e.go_eq(st, v.v, Iface(None), v.t, v.t))
    if k == 'Pointer':
        return e.finish(st, ret, v.v.obj is None)
    if k == 'Slice':
        return e.finish(st, ret, True if v.v.obj is None else v.v.nil)
    if k in ('Map', 'Func', 'Chan', 'UnsafePointer'):
        raise Unsupported('reflect: IsNil of ' + k)
    return e.panic(st, 'reflect: IsNil of a value of another kind')


@rv('Elem')
def _(e, st, args, ret):
    v = args[0]
    k = None if v.fn or v.t is None else kindname(e, v.t)
    if k == 'Pointer':
        if v.v.obj is None:
            return e.finish(st, ret, RVal())
        return e.finish(st, ret, RVal(e.kind(v.t)[1], e.load(st, v.v), v.ro))
    if k != 'Interface':
        return e.panic(st, 'reflect: Elem of a value of another kind')
    x = v.v
    if isinstance(x, Iface):
        return e.finish(st, ret, RVal(x.t, x.v, v.ro))
    if not isinstance(x, SymIface):
        raise Unsupported('reflect: Elem of an unknown value')
    if e.decide(st, bsimp(tid_fn(x.term) == 0)):
        return e.finish(st, ret, RVal())
    ms = set(e.T.under(v.t)[1].get('methods') or [])
    if not ms:
        raise Unsupported('reflection on a value of any type')
    for t in sorted(t for t, m in e.methods.items() if ms <= set(m) and '/zz' not in t):
        if e.decide(st, bsimp(tid_fn(x.term) == e.T.tid(t))):
            if t.startswith('*'):
                nil = e.app('nilptr<%s>' % e.T.canon(t), [x.term], BOOL)
                if e.decide(st, nil):
                    return e.finish(st, ret, RVal(t, Ptr(None), v.ro))
                o = e.newobj(st, Obj('cell', e.fresh_value(st, t[1:], 'pointee'), t=t[1:]))
                return e.finish(st, ret, RVal(t, Ptr(o), v.ro))
            return e.finish(st, ret, RVal(t, e.iface_payload(st, x.term, t), v.ro))
    # a type of another package can only embed one of these: outside the statements
    e.used_models.add('values of %s have one of the types of the module' % v.t.rsplit('/', 1)[-1])
    raise Dead()


def invoke(e, st, recv, m, args, ret):
    """method of a reflect.Type"""
    def fin(x):
        return e.finish(st, ret, x)
    e.used_models.add('reflect.Type.' + m)
    if recv.ins is not None:
        ts = {'NumIn': recv.ins, 'In': recv.ins, 'NumOut': recv.outs, 'Out': recv.outs}.get(m)
        if m in ('NumIn', 'NumOut'):
            return fin(len(ts))
        if m in ('In', 'Out'):
            i = args[0]
            if not isinstance(i, int):
                raise Unsupported('reflection on a computed parameter')
            if not 0 <= i < len(ts):
                return e.panic(st, 'reflect: parameter index out of range')
            return fin(RType(ts[i]))
        if m == 'Kind':
            return fin(kval('Func'))
        raise Unsupported('reflect.Type.%s of a method' % m)
    k = kindname(e, recv.t)
    if m == 'Kind':
        return fin(kval(k))
    if m == 'String':
        return fin(text(tname(e.T.canon(recv.t))))
    if m == 'Name':
        return fin(text(tname(recv.t) if e.T.t[recv.t]['k'] in ('named', 'basic') else ''))
    if m == 'NumField':
        if k != 'Struct':
            return e.panic(st, 'reflect: NumField of a type that is no struct')
        return fin(len(e.T.under(recv.t)[1]['fields'] or []))
    if m == 'Field':
        i = args[0]
        if k != 'Struct':
            return e.panic(st, 'reflect: Field of a type that is no struct')
        if not isinstance(i, int):
            raise Unsupported('reflection on a computed field')
        fs = e.T.under(recv.t)[1]['fields'] or []
        if not 0 <= i < len(fs):
            return e.panic(st, 'reflect: Field index out of range')
        ex = fs[i]['n'][:1].isupper()
        return fin(Struct((text(fs[i]['n']), text('' if ex else 'x'), RType(fs[i]['t'])) + (Opaque('reflect.StructField'),) * 4))
    if m == 'Elem':
        if k not in ('Array', 'Pointer', 'Slice'):
            if k in ('Chan', 'Map'):
                raise Unsupported('reflect: Elem of ' + k)
            return e.panic(st, 'reflect: Elem of a type of another kind')
        return fin(RType(e.kind(recv.t)[1]))
    if m in ('NumIn', 'NumOut', 'In', 'Out') and k != 'Func':
        return e.panic(st, 'reflect: %s of a type that is no function' % m)
    raise Unsupported('reflect.Type.' + m)


def kindstring(e, st, args, ret):
    k = args[0]
    if not z3.is_bv_value(k):
        raise Unsupported('reflect: name of a computed kind')
    n = KINDS[k.as_long()]
    return e.finish(st, ret, text({'Pointer': 'ptr', 'UnsafePointer': 'unsafe.Pointer'}.get(n, n.lower())))


MODELS['(reflect.Kind).String'] = kindstring


def formatbool(e, st, args, ret):
    c = args[0]
    c = c if isinstance(c, bool) else e.decide(st, c)
    return e.finish(st, ret, text('true' if c else 'false'))


MODELS['strconv.FormatBool'] = formatbool


def trim(e, st, args, ret):
    """strings.Trim: some text that is not longer"""
    q = e.ctx.fresh('trimmed', Q)
    e.ctx.axiom(qlen(q) >= 0)
    st.assume(ile(qlen(q), rope_len(args[0].rope)))
    return e.finish(st, ret, Str((S(q, 0, keep(qlen(q))),)))


MODELS['strings.Trim'] = trim
