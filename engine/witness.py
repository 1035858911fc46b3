"""Counterexamples: arguments from solver models, and a search for an input of
the real code on which a lemma fails."""
import json
import os
import re
import subprocess

import z3

from core import *
from machine import MOD

MAXLEN = 400


# ------------------------------------------------------------------ models

def args_of(e, st, name):
    """the lemma's arguments in a model of the failing path, as the harness reads them"""
    args, types = e.lemma_args
    s = z3.Solver()
    s.set('timeout', 5000)
    for c in st.pc:
        s.add(c)
    for a in e.ctx.axioms:
        s.add(a)
    # short sequences make readable inputs; only a preference
    lens = []

    def collect(v):
        if isinstance(v, Slice) and not isinstance(v.ln, int):
            lens.append(v.ln)
        elif isinstance(v, Str):
            n = rope_len(v.rope)
            if not isinstance(n, int):
                lens.append(n)
        elif isinstance(v, (Struct, Arr)):
            for x in v.f:
                collect(x)
    for a in args:
        collect(a)
    m = None
    for bound in (8, 64, MAXLEN, None):
        s.push()
        if bound is not None:
            for n in lens:
                s.add(n <= bound)
        r = s.check()
        if r == z3.sat:
            m = s.model()
            break
        s.pop()
    if m is None:
        return None
    s2 = st.clone()
    return [val(e, s2, m, a, t) for a, t in zip(args, types)]


def ev(m, t):
    if isinstance(t, (bool, int)):
        return t
    r = m.eval(t, model_completion=True)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    if z3.is_int_value(r) or z3.is_bv_value(r):
        return r.as_long()
    return 0


def val(e, st, m, v, t, depth=0):
    k = e.kind(t)
    if depth > 6:
        return None
    if k[0] == 'int':
        return ev(m, v)
    if k[0] == 'bool':
        return bool(ev(m, v))
    if k[0] == 'bv':
        n = ev(m, v)
        if k[2] and n >> (k[1] - 1):
            n -= 1 << k[1]
        return n
    if k[0] == 'string':
        return seq(e, st, m, v.rope, 'uint8', depth)
    if k[0] == 'slice':
        if v.obj is None or ev(m, v.nil):
            return None
        return seq(e, st, m, e.content(st, v), k[1], depth)
    if k[0] == 'array':
        return [val(e, st, m, x, k[1], depth + 1) for x in v.f]
    if k[0] == 'struct':
        if not isinstance(v, Struct):
            return []
        return [val(e, st, m, x, f, depth + 1) for x, f in zip(v.f, k[1])]
    if k[0] == 'iface':
        if isinstance(v, Iface):
            if v.t is None:
                return None
            return {'T': e.T.canon(v.t), 'V': val(e, st, m, v.v, v.t, depth + 1)}
        n = ev(m, tid_fn(v.term))
        for ct, i in e.T.tids.items():
            if i == n:
                tt = next((x for x in e.T.t if e.T.canon(x) == ct), None)
                if tt is None:
                    return None
                try:
                    return {'T': ct, 'V': val(e, st, m, e.iface_payload(st, v.term, tt), tt, depth + 1)}
                except Unsupported:
                    return None
        return None
    return None


def seq(e, st, m, rope, et, depth):
    out = []
    for c in rope:
        if c[0] == 'U':
            out.append(val(e, st, m, c[1], et, depth + 1))
            continue
        n, o = ev(m, c[3]), ev(m, c[2])
        for i in range(min(n, MAXLEN if depth < 2 else 40)):
            out.append(val(e, st, m, e.elem(st, 'at<%s>' % e.T.canon(et), c[1], o + i, et), et, depth + 1))
        if len(out) > MAXLEN:
            break
    return out


# ------------------------------------------------------------------ search

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'constants.json')


def constants(prog):
    """constants of each function of the code"""
    out = {}
    for n, f in prog['funcs'].items():
        if MOD not in n or n.rsplit('.', 1)[-1].startswith('z'):
            continue
        c = []

        def walk(x):
            if isinstance(x, dict):
                if 'op' not in x:
                    if 'i' in x and isinstance(x['i'], str) and re.fullmatch(r'-?\d+', x['i']):
                        c.append('i' + x['i'])
                    if 's' in x and isinstance(x['s'], str) and len(x['s']) < 60:
                        c.append('s' + x['s'])
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(f.get('blocks') or [])
        if c:
            out[n.replace(MOD, '')] = c
    return out


def dictionary(prog):
    """constants that occur in the code, and those which the tree this was written for did not have there;
    they only guide the choice of inputs"""
    cur = constants(prog)
    try:
        base = json.load(open(BASE))
    except Exception:
        base = {}
    every, new = set(), set()
    for f, c in cur.items():
        b = list(base.get(f, ()))
        for x in c:
            every.add(x)
            if x in b:
                b.remove(x)
            elif base:
                new.add(x)

    def ints(xs):
        return sorted(int(x[1:]) & (2 ** 64 - 1) for x in xs if x[0] == 'i')

    def strs(xs):
        return sorted(x[1:] for x in xs if x[0] == 's')
    return {'Ints': ints(every)[:3000], 'Strings': strs(every)[:500], 'NewInts': ints(new)[:300], 'NewStrings': strs(new)[:100]}


def search(prog, verif, repo, pkg, lemmas, prop, seed, seconds, hints, tmp, go, env, replay=0, cfg0=None, panic_ok=False):
    d = os.path.join(tmp, 'search-' + pkg.replace('/', '-'))
    os.makedirs(d, exist_ok=True)
    rep = {}
    pdir = os.path.join(repo, pkg)
    n = 0
    for f, src in prog['overlay'].items():
        n += 1
        p = os.path.join(d, 'o%d_%s' % (n, os.path.basename(f)))
        with open(p, 'w') as h:
            h.write(src)
        rep[f] = p
    short = pkg.rsplit('/', 1)[-1]
    gen = os.path.join(verif, 'harness', pkg, 'gen.go.tmpl')
    if not os.path.exists(gen):
        gen = os.path.join(verif, 'harness', 'default_gen.go.tmpl')
    for tmpl, name in ((os.path.join(verif, 'harness', 'search.go.tmpl'), 'zz_verif_search_test.go'), (gen, 'zz_verif_gen_test.go')):
        p = os.path.join(d, name)
        with open(p, 'w') as h:
            h.write(open(tmpl).read().replace('package PACKAGE', 'package ' + short))
        rep[os.path.join(pdir, name)] = p
    pre = MOD + pkg + '.'
    names = sorted(f[len(pre):] for f in prog['funcs'] if f.startswith((pre + 'zl', pre + 'zx')) and '$' not in f and '[' not in f)
    p = os.path.join(d, 'reg.go')
    with open(p, 'w') as h:
        h.write('package %s\n\nvar zvLemmas = map[string]interface{}{\n' % short)
        for x in names:
            h.write('\t"%s": %s,\n' % (x, x))
        h.write('}\n')
    rep[os.path.join(pdir, 'zz_verif_reg_test.go')] = p
    # the repository's own tests of the package are left out
    for f in os.listdir(pdir):
        if f.endswith('_test.go'):
            e = os.path.join(d, 'empty_' + f)
            head = open(os.path.join(pdir, f)).read()
            m = re.search(r'^package\s+(\w+)', head, re.M)
            with open(e, 'w') as h:
                h.write('package %s\n' % (m.group(1) if m else short))
            rep[os.path.join(pdir, f)] = e
    ov = os.path.join(d, 'overlay.json')
    json.dump({'Replace': rep}, open(ov, 'w'))
    if cfg0:
        cfg = dict(cfg0)
        cfg.update(Replay=replay, Seconds=seconds, Workers=1, Lemmas=lemmas)
    else:
        cfg = {'Lemmas': lemmas, 'Only': prop, 'Seed': seed, 'Seconds': seconds, 'Replay': 0, 'PanicOk': panic_ok,
               'Dict': dictionary(prog), 'Hints': [h for h in hints if h['Lemma'] in lemmas][:40], 'Workers': 8}
    out = os.path.join(d, 'report.json')
    if os.path.exists(out):
        os.unlink(out)
    cfg['Out'] = out
    cp = os.path.join(d, 'config.json')
    json.dump(cfg, open(cp, 'w'))
    env = dict(env)
    env['ZV_CONFIG'] = cp
    env['GOMEMLIMIT'] = '4GiB'
    try:
        r = subprocess.run(['timeout', '-k', '5', str(int(seconds + 120)), go, 'test', '-vet=off', '-overlay', ov, '-count=1', '-run', '^TestZvSearch$', '-timeout', '%ds' % (seconds + 100), './' + pkg],
                           cwd=repo, env=env, capture_output=True, text=True)
        text = (r.stdout + r.stderr)
        text = text if len(text) < 4000 else text[:3000] + '\n...\n' + text[-1000:]
    except Exception as x:
        text = str(x)
    if not os.path.exists(out) and re.search(r'^(fatal error|runtime: goroutine stack exceeds)', text, re.M):
        cfg.pop('Out')
        return {'Found': {'Lemma': ' or '.join(lemmas), 'Seed': 0, 'Failure': 'the program is ended by the runtime: ' + text, 'Args': []}, 'config': cfg}
    if not os.path.exists(out):
        raise Exception('no report: ' + text)
    res = json.load(open(out))
    cfg.pop('Out')
    res['config'] = cfg
    return res


def tree_search(prog, verif, repo, prop, seed, seconds, tmp, go, env, depth=5, race=False, replay=None):
    """run the tree harness: bounded enumeration and random search (or the lock scenarios)"""
    pkg = 'oid'
    d = os.path.join(tmp, 'tree')
    os.makedirs(d, exist_ok=True)
    pdir = os.path.join(repo, pkg)
    rep = {}
    p = os.path.join(d, 'zz_verif_tree_test.go')
    with open(p, 'w') as h:
        h.write(open(os.path.join(verif, 'harness', 'oid', 'tree.go.tmpl')).read().replace('package PACKAGE', 'package ' + pkg))
    rep[os.path.join(pdir, 'zz_verif_tree_test.go')] = p
    for f in os.listdir(pdir):
        if f.endswith('_test.go'):
            e = os.path.join(d, 'empty_' + f)
            m = re.search(r'^package\s+(\w+)', open(os.path.join(pdir, f)).read(), re.M)
            with open(e, 'w') as h:
                h.write('package %s\n' % (m.group(1) if m else pkg))
            rep[os.path.join(pdir, f)] = e
    ov = os.path.join(d, 'overlay.json')
    json.dump({'Replace': rep}, open(ov, 'w'))
    out = os.path.join(d, 'report.json')
    if os.path.exists(out):
        os.unlink(out)
    ints = sorted({x & 0xffffffff for x in dictionary(prog)['NewInts']})[:50] if prog else []
    cfg = {'Prop': prop, 'Seed': seed, 'Seconds': seconds, 'Depth': depth, 'Replay': replay, 'Ints': ints, 'Out': out}
    cp = os.path.join(d, 'config.json')
    json.dump(cfg, open(cp, 'w'))
    env = dict(env)
    env['ZT_CONFIG'] = cp
    env['GOMEMLIMIT'] = '4GiB'
    if race:
        env['CGO_ENABLED'] = '1'
    cmd = ['timeout', '-k', '5', str(int(3 * seconds + 120)), go, 'test', '-vet=off'] + (['-race'] if race else []) + ['-overlay', ov, '-count=1', '-run', '^TestZtTree$', '-timeout', '%ds' % (3 * seconds + 100), './' + pkg]
    r = subprocess.run(cmd, cwd=repo, env=env, capture_output=True, text=True)
    text = r.stdout + r.stderr
    text = text if len(text) < 6000 else text[:4000] + '\n...\n' + text[-2000:]
    if os.path.exists(out):
        res = json.load(open(out))
    elif re.search(r'^(fatal error|panic|runtime: goroutine stack exceeds)', text, re.M):
        res = {'Found': True, 'Failure': 'the program is ended by the runtime: ' + text, 'History': [], 'Text': []}
    else:
        raise Exception('no report: ' + text)
    if not res['Found'] and 'DATA RACE' in text:
        res.update(Found=True, Failure='data race: ' + text[text.index('DATA RACE'):][:3000])
    return res
