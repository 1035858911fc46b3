"""Obligations: lemma functions, contract checks."""
import time
import traceback
import machine
from core import *
from machine import State, Engine, MOD


def contracts_of(prog):
    """real function -> contract function, by naming convention zc_<func> / zc_<Recv>_<method>
    (zt_: the function returns normally and touches no memory of its caller; nothing about the result)"""
    if '_contracts' in prog:
        return prog['_contracts']
    out = {}
    for n in prog['funcs']:
        pkg, _, short = n.rpartition('.')
        if not n.startswith(MOD) or not short.startswith(('zc_', 'zt_')):
            continue
        base = short[3:]
        p = pkg[len(MOD):]
        cands = [pkg + '.' + base]
        if '_' in base:
            r, m = base.split('_', 1)
            cands += ['(%s.%s).%s' % (pkg, r, m), '(*%s.%s).%s' % (pkg, r, m)]
        for c in cands:
            if c in prog['funcs'] and same_sig(prog['funcs'][c], prog['funcs'][n]):
                out[c] = n
    prog['_contracts'] = out
    return out


def same_sig(a, b):
    return [p['t'] for p in a['params']] == [p['t'] for p in b['params']] and a['results'] == b['results']


def ncases(prog, name):
    """number of cases of a lemma that starts with zvCase"""
    for b in prog['funcs'][name]['blocks']:
        for i in b['i']:
            if i['op'] == 'Call' and str(i['call'].get('v', '')).endswith('.zvCase'):
                return int(i['call']['args'][1]['i']) + 1
    return 0


def ens_of(prog):
    """opaque specification functions with a postcondition"""
    return sorted(n for n in prog['funcs'] if n.startswith(MOD) and '.zo' in n and n + '_ens' in prog['funcs'])


def check_ens(prog, fname, debug=False, budget=60, **opt):
    """the postcondition of a specification function holds for its definition (several unfolding plans)"""
    t0 = time.time()
    l1 = {fname}
    l2 = l1 | called_opaque(prog, fname + '_ens')
    l3 = set(l2)
    for f in l2:
        l3 |= called_opaque(prog, f)
    best, seen = None, []
    for p in (l1, l2, l3):
        if p in seen or time.time() - t0 > budget - 3:
            continue
        seen.append(p)
        r = check_ens1(prog, fname, {x.rsplit('.', 1)[-1] for x in p}, debug=debug, budget=budget - (time.time() - t0), **opt)
        if best is None or r['status'] == 'proved':
            best = r
        if r['status'] == 'proved':
            break
    best['time'] = time.time() - t0
    return best


def check_ens1(prog, fname, reveal, debug=False, budget=60, **opt):
    t0 = time.time()
    short = fname.rsplit('.', 1)[-1]
    e = Engine(prog, contracts={}, debug=debug, deadline=t0 + budget, reveal=reveal, **opt)
    e.globals = prog['_globals']
    e.no_ens = fname
    res = {'name': 'spec ' + short, 'failed': [], 'proved': [], 'error': None}
    try:
        st = State()
        st.heap = dict(e.globals)
        f = e.funcs[fname]
        args = [e.fresh_value(st, p['t'], p['n']) for p in f['params']]
        n = 0
        for o in e.call(st, fname, args, force=True):
            if o.kind == 'panic':
                # defined only where its callers apply it
                continue
            n += 1
            rs = list(o.value.f) if isinstance(o.value, Tup) else [o.value]
            for o2 in e.call(o.st, fname + '_ens', args + rs):
                if o2.kind != 'return':
                    e.fail(o2.st, short + ' postcondition', 'panics: %s' % o2.info)
                elif e.prove(o2.st, o2.value):
                    e.ok(short + ' postcondition', '')
                else:
                    e.fail(o2.st, short + ' postcondition', str(o2.value)[:300])
        if n == 0:
            res['error'] = 'no feasible path (vacuous)'
    except Unsupported as x:
        res['error'] = 'unsupported: %s' % x
        if debug:
            traceback.print_exc()
    except Exception as x:
        res['error'] = 'internal: %s\n%s' % (x, traceback.format_exc())
    return finish(e, res, t0)


def rewrites_of(prog):
    return sorted(n for n in prog['funcs'] if n.startswith(MOD) and n.rpartition('.')[2].startswith('zr_'))


def check_rewrite(prog, rule, debug=False, budget=120, **opt):
    """a rule zr_<decode>_<encode>: decode(encode(x) ++ rest) gives the stated results (several unfolding plans)"""
    t0 = time.time()
    l1 = set(rule.rpartition('.')[2][3:].split('_'))
    best = None
    l2 = l1 | {x + 'Ok' for x in l1}
    for p in (l2, l1 | {x.rsplit('.', 1)[-1] for x in called_opaque(prog, rule)}):
        left = budget - (time.time() - t0)
        if left < 5:
            break
        r = check_rewrite1(prog, rule, p, debug=debug, budget=left, **opt)
        if best is None or r['status'] == 'proved':
            best = r
        if r['status'] == 'proved':
            break
    best['time'] = time.time() - t0
    return best


def check_rewrite1(prog, rule, reveal, debug=False, budget=120, **opt):
    t0 = time.time()
    pkg, _, short = rule.rpartition('.')
    dn, en = short[3:].split('_')
    e = Engine(prog, contracts={}, debug=debug, deadline=t0 + budget, reveal=set(reveal), **opt)
    e.globals = prog['_globals']
    e.rewrites = True
    res = {'name': 'rule ' + short, 'failed': [], 'proved': [], 'error': None}
    try:
        st = State()
        st.heap = dict(e.globals)
        rf, df, ef = e.funcs[rule], e.funcs[pkg + '.' + dn], e.funcs[pkg + '.' + en]
        args = [e.fresh_value(st, p['t'], p['n']) for p in rf['params']]
        q = e.ctx.fresh('rest', Q)
        rl = keep(qlen(q))
        e.ctx.axiom(rl >= 0)
        n = 0
        for co in e.call(st, rule, args, force=True):
            if co.kind != 'return':
                if not e.infeasible(co.st):
                    e.fail(co.st, short + ': the rule is defined', str(co.info))
                continue
            for eo in e.call(co.st, pkg + '.' + en, args, force=True):
                if eo.kind != 'return':
                    if not e.infeasible(eo.st):
                        e.fail(eo.st, short + ': the encoding is defined', str(eo.info))
                    continue
                s = eo.st.clone()
                rope = rope_norm(tuple(e.content(s, eo.value)) + (S(q, 0, rl),))
                oid = e.newobj(s, Obj('arr', rope, et='uint8'))
                ln = rope_len(rope)
                byname = {p['n']: a for p, a in zip(rf['params'], args)}
                dargs = [byname[p['n']] for p in df['params'][:-1]] + [Slice(oid, 0, ln, ln, False, 'uint8')]
                for do in e.call(s, pkg + '.' + dn, dargs, force=True):
                    if e.infeasible(do.st):
                        continue
                    n += 1
                    if do.kind != 'return':
                        e.fail(do.st, short + ': decoding is defined', str(do.info))
                        continue
                    for i, t in enumerate(df['results']):
                        def task(s2, i=i, t=t):
                            return e.prove_eq(s2, do.value.f[i], co.value.f[i], t)
                        s2 = do.st.clone()
                        for k, o in co.st.heap.items():
                            if k not in s2.heap:
                                s2.heap[k] = o
                        if e.forall_paths(s2, task):
                            e.ok('%s: result %d' % (short, i), '')
                        else:
                            e.fail(do.st, '%s: result %d' % (short, i), 'got %s, stated %s' % (e.show(s2, do.value.f[i]), e.show(s2, co.value.f[i])))
        if n == 0:
            res['error'] = 'no feasible path (vacuous)'
    except Unsupported as x:
        res['error'] = 'unsupported: %s' % x
        if debug:
            traceback.print_exc()
    except Exception as x:
        res['error'] = 'internal: %s\n%s' % (x, traceback.format_exc())
    return finish(e, res, t0)


def finish(e, res, t0):
    res['failed'] = [(a, b) for a, b, c in e.failed]
    res['failstates'] = e.failed
    res['engine'] = e
    res['proved'] = e.proved
    res['status'] = 'proved' if not e.failed and not res['error'] and e.proved else 'FAILED'
    res['time'] = time.time() - t0
    res['paths'] = e.npaths
    res['queries'] = e.ctx.stats.queries
    res['solver_s'] = e.ctx.stats.solver_s
    return res


def run_lemma(prog, name, debug=False, contracts=True, use=None, budget=120, **opt):
    t0 = time.time()
    con = dict(contracts_of(prog)) if contracts else {}
    if use is not None:
        con = {k: v for k, v in con.items() if k in use}
    e = Engine(prog, contracts=con, debug=debug, deadline=t0 + budget, **opt)
    e.globals = prog['_globals']
    res = {'name': name, 'failed': [], 'proved': [], 'error': None}
    try:
        st = State()
        st.heap = dict(e.globals)
        f = e.funcs[name]
        args = [e.fresh_value(st, p['t'], p['n']) for p in f['params']]
        e.alloc_bound = alloc_bound(e, args)
        e.lemma_args = (args, [p['t'] for p in f['params']])
        outs = e.call(st, name, args, force=True)
        n = 0
        for o in outs:
            if o.kind == 'panic':
                if e.ctx.check(o.st.pc) != 'unsat':
                    e.fail(o.st, 'no panic', str(o.info))
            n += 1
        if n == 0:
            res['error'] = 'no feasible path (vacuous)'
    except Unsupported as x:
        res['error'] = 'unsupported: %s' % x
        if debug:
            traceback.print_exc()
    except Exception as x:
        res['error'] = 'internal: %s\n%s' % (x, traceback.format_exc())
    return finish(e, res, t0)


def alloc_bound(e, args):
    """the largest allocation (in elements) that arguments of this size may cause: a constant plus the total size of their arrays"""
    n = 4096

    def add(v):
        nonlocal n
        if isinstance(v, Slice):
            n = iadd(n, v.ln if v.cap is None else v.cap)
        elif isinstance(v, Str):
            n = iadd(n, rope_len(v.rope))
        elif isinstance(v, (Struct, Arr)):
            for x in v.f:
                add(x)
    for a in args:
        add(a)
    return n


def arg_memory(st, oid):
    """is the object memory that the caller handed in (or reachable from it)?"""
    if oid is None or oid not in st.heap:
        return False
    o = st.heap[oid]
    if not o.ext:
        return False
    if o.kind == 'arr' and len(o.v) == 1 and o.v[0][0] == 'S':
        nm = o.v[0][1].decl().name()
        if '.zo' in nm and ':' in nm:
            return False       # result of a specification function: fresh memory
    return True


def alias_ok(e, st_r, vr, st_c, vc, t):
    """every slice of the real result lies in fresh memory, or where the contract says"""
    k = e.kind(t)
    if k[0] == 'slice':
        if not isinstance(vr, Slice) or vr.obj is None:
            return True
        if arg_memory(st_r, vr.obj):
            return isinstance(vc, Slice) and vc.obj == vr.obj
        # a fresh array that may still share memory with an argument
        shared = [m for m in st_r.heap[vr.obj].grp if arg_memory(st_r, m)]
        if shared:
            if not isinstance(vc, Slice) or vc.obj is None:
                return False
            ok = set(st_c.heap[vc.obj].grp) | {vc.obj}
            return all(m in ok for m in shared)
        return True
    if k[0] == 'struct' and isinstance(vr, Struct):
        return all(alias_ok(e, st_r, a, st_c, b, f) for a, b, f in zip(vr.f, vc.f, k[1]))
    if k[0] == 'iface' and isinstance(vr, Iface) and vr.t is not None:
        b = vc.v if isinstance(vc, Iface) else None
        if b is None:
            kk = e.kind(vr.t)
            if kk[0] in ('slice', 'struct', 'string') or True:
                b = None
        return alias_ok_payload(e, st_r, vr.v, st_c, b, vr.t)
    if k[0] == 'tuple':
        return all(alias_ok(e, st_r, a, st_c, b, f) for a, b, f in zip(vr.f, vc.f, k[1]))
    return True


def alias_ok_payload(e, st_r, a, st_c, b, t):
    k = e.kind(t)
    if b is None:
        if k[0] == 'slice':
            return not arg_memory(st_r, a.obj) and not any(arg_memory(st_r, m) for m in (st_r.heap[a.obj].grp if a.obj else ()))
        if k[0] == 'struct' and isinstance(a, Struct):
            return all(alias_ok_payload(e, st_r, x, st_c, None, f) for x, f in zip(a.f, k[1]))
        return True
    return alias_ok(e, st_r, a, st_c, b, t)


def called_opaque(prog, fname, seen=None):
    """opaque specification functions called by fname, directly or through transparent spec functions"""
    out = set()
    seen = set() if seen is None else seen
    if fname in seen:
        return out
    seen.add(fname)
    for b in prog['funcs'][fname].get('blocks') or ():
        for i in b['i']:
            if i['op'] == 'Call':
                v = i['call'].get('v')
                if isinstance(v, str) and v.startswith('@f:' + MOD):
                    short = v.rsplit('.', 1)[-1]
                    if short.startswith('zo'):
                        out.add(v[3:])
                    elif short.startswith('zv') and v[3:] in prog['funcs']:
                        out |= called_opaque(prog, v[3:], seen)
    return out


def reveal_plans(prog, con):
    """sets of opaque functions to unfold, in the order to try"""
    l1 = called_opaque(prog, con)
    others = set()
    for r, c in contracts_of(prog).items():
        if c != con:
            others |= called_opaque(prog, c)
    l2 = set(l1)
    while True:
        n = set(l2)
        for f in l2:
            n |= {x for x in called_opaque(prog, f) if x not in others}
        if n == l2:
            break
        l2 = n
    l3 = set(l2)
    for f in l2:
        l3 |= called_opaque(prog, f)
    plans = []
    for p in (l2, l3):
        q = {x.rsplit('.', 1)[-1] for x in p}
        if q not in plans:
            plans.append(q)
    return plans


def check_contract(prog, real, con, debug=False, budget=120, **opt):
    """the real function behaves exactly as its contract says (several unfolding plans)"""
    t0 = time.time()
    plans = [{'reveal': p} for p in reveal_plans(prog, con)] + [{'reveal_all': True, 'use': ()}]
    best = None
    for p in plans:
        o = dict(opt)
        o.update(p)
        left = budget - (time.time() - t0)
        if left < 5:
            break
        r = check_contract1(prog, real, con, debug=debug, budget=left, **o)
        if best is None or r['status'] == 'proved':
            best = r
        if r['status'] == 'proved':
            break
    best['time'] = time.time() - t0
    return best


def check_contract1(prog, real, con, debug=False, use=None, budget=120, **opt):
    """the real function behaves exactly as its contract says"""
    t0 = time.time()
    cons = dict(contracts_of(prog))
    if use is not None:
        cons = {k: v for k, v in cons.items() if k in use}
    cons.pop(real, None)
    e = Engine(prog, contracts=cons, debug=debug, deadline=t0 + budget, **opt)
    e.globals = prog['_globals']
    short = con.rsplit('.', 1)[-1][3:]
    res = {'name': 'contract ' + short, 'failed': [], 'proved': [], 'error': None}
    try:
        st = State()
        st.heap = dict(e.globals)
        f = e.funcs[real]
        args = [e.fresh_value(st, p['t'], p['n']) for p in f['params']]
        e.alloc_bound = alloc_bound(e, args)
        # the body of the contract may use opaque functions but not other contracts
        cons2, e.contracts = e.contracts, {}
        e.quiet = True
        couts = e.call(st, con, args, force=True)
        e.quiet = False
        e.contracts = cons2
        appends = any(x[0] == 'extappend' for co in couts for x in co.st.events)
        nreach = 0
        for co in couts:
            s = st.clone()
            # same heap objects, the contract's path condition
            s.pc, s.facts, s.kappas = list(co.st.pc), list(co.st.facts), list(co.st.kappas)
            for k, o in co.st.heap.items():
                if k not in s.heap:
                    s.heap[k] = o
            e.unfold_hints = co
            routs = e.call(s, real, args, force=True)
            for ro in routs:
                if e.ctx.check(ro.st.pc) == 'unsat':
                    continue
                nreach += 1
                if con.rsplit('.', 1)[-1].startswith('zt_'):
                    total_outcome(e, ro, short)
                    continue
                compare_outcome(e, st, args, f, co, ro, short, appends)
        if nreach == 0:
            res['error'] = 'no feasible path (vacuous)'
    except Unsupported as x:
        res['error'] = 'unsupported: %s' % x
        if debug:
            traceback.print_exc()
    except Exception as x:
        res['error'] = 'internal: %s\n%s' % (x, traceback.format_exc())
    return finish(e, res, t0)


def total_outcome(e, ro, short):
    """a zt_ contract: returns normally, writes and keeps no memory of its caller"""
    if ro.kind != 'return':
        if not e.infeasible(ro.st):
            e.fail(ro.st, short + ': returns normally', '%s: %s' % (ro.kind, ro.info))
        return
    bad = [x for x in ro.st.events if x[0] in ('extwrite', 'extcell', 'extappend') and arg_memory(ro.st, x[1])]
    if bad:
        e.fail(ro.st, short + ': writes no memory of its caller', str(bad[:3]))
    vs = list(ro.value.f) if isinstance(ro.value, Tup) else [ro.value]
    if any(isinstance(v, Slice) and (arg_memory(ro.st, v.obj) or v.obj and any(arg_memory(ro.st, m) for m in ro.st.heap[v.obj].grp)) for v in vs):
        e.fail(ro.st, short + ': result in fresh memory', '')
    e.ok(short + ': returns normally', '')


def compare_outcome(e, st0, args, f, co, ro, short, appends=False):
    if co.kind != ro.kind:
        work = [ro.st.clone()]
        if e.infeasible(ro.st):
            return
        if ro.kind == 'panic':
            e.fail(ro.st, short + ': panics only when the contract does', str(ro.info))
        else:
            e.fail(ro.st, short + ': panics whenever the contract does', 'contract: %s' % co.info)
        return
    frame_outcome(e, co, ro, short, appends)
    if co.kind == 'panic':
        e.ok(short + ': panics as specified', str(ro.info))
        return
    rt = f['results']
    vr = list(ro.value.f) if len(rt) != 1 else [ro.value]
    vc = list(co.value.f) if len(rt) != 1 else [co.value]
    for n, t in enumerate(rt):
        def task(s, n=n, t=t):
            return e.prove_eq(s, vr[n], vc[n], t)
        s = ro.st.clone()
        for k, o in co.st.heap.items():
            if k not in s.heap:
                s.heap[k] = o
        if e.forall_paths(s, task):
            e.ok('%s: result %d as specified' % (short, n), '')
        else:
            e.fail(ro.st, '%s: result %d as specified' % (short, n), 'got %s, specified %s' % (e.show(s, vr[n]), e.show(s, vc[n])))
        if not alias_ok(e, ro.st, vr[n], co.st, vc[n], t):
            e.fail(ro.st, '%s: result %d in fresh memory' % (short, n), 'the result shares memory with an argument')
        else:
            e.ok('%s: result %d in fresh memory' % (short, n), '')


def frame_outcome(e, co, ro, short, appends=False):
    """what the call may allocate and write, however it ends"""
    bad = [x for x in ro.st.events if x[0] == 'badalloc']
    if bad:
        e.fail(ro.st, short + ': allocates at most the size of its arguments', str(bad[:3]))
    # memory reachable from the arguments
    bad = [x for x in ro.st.events if x not in co.st.events and x[0] in ('extwrite', 'extcell') and arg_memory(ro.st, x[1])]
    if bad and not any(x[0] in ('extwrite', 'extcell') for x in co.st.events):
        e.fail(ro.st, short + ': writes no memory of its caller', str(bad[:3]))
    bad = [x for x in ro.st.events if x[0] == 'extappend' and arg_memory(ro.st, x[1])]
    # (a call that the contract lets append may do so before it panics)
    if bad and not any(x[0] == 'extappend' for x in co.st.events) and not (ro.kind == 'panic' and appends):
        e.fail(ro.st, short + ': appends to no memory of its caller', str(bad[:3]))
