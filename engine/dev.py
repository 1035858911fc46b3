"""development driver: dev.py <pkg> <lemma-regex> [-d]"""
import sys, json, re, time, subprocess, os
sys.path.insert(0, os.path.dirname(__file__))
sys.setrecursionlimit(20000)
import machine
from core import *

def load(path=os.environ.get('DJ','/tmp/w/d.json'), dump=True):
    if dump:
        subprocess.check_call(['/tmp/w/ssajson','-repo',os.environ.get('VERIF_REPO','/repo'),'-overlay','/verif/specs','-o',path])
    prog = json.load(open(path))
    if prog.get('dropped'):
        print('dropped', prog['dropped'])
    return prog

def one_(i):
    return one(i)

def main():
    prog = load()
    debug = '-d' in sys.argv
    nocon = '-n' in sys.argv
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    pkg, rx = args[0], args[1]
    e = machine.Engine(prog)
    t0=time.time()
    f = e.run_init()
    print('init %.1fs' % (time.time()-t0), f)
    import proofs
    def show(nm, r):
        print(nm, r['status'], '%.1fs' % r['time'], 'proved', len(r['proved']), 'paths', r['paths'], 'queries', r['queries'], 'solver %.1f' % r['solver_s'])
        for x in r['failed'][:6]:
            print('   FAIL', x[0], x[1][:1500])
        if r.get('error'): print('   ', r['error'][:3000])
    if '-c' in sys.argv:
        for real, con in sorted(proofs.contracts_of(prog).items()):
            if machine.MOD+pkg+'.' in con and re.search(rx, con.rsplit('.',1)[1]):
                show('contract '+con.rsplit('.',1)[1], proofs.check_contract(prog, real, con, debug=debug))
        return
    if '-r' in sys.argv:
        for n in proofs.rewrites_of(prog):
            if machine.MOD+pkg+'.' in n and re.search(rx, n.rsplit('.',1)[1]):
                show('rule '+n.rsplit('.',1)[1], proofs.check_rewrite(prog, n, debug=debug))
        return
    if '-e' in sys.argv:
        for n in proofs.ens_of(prog):
            if machine.MOD+pkg+'.' in n and re.search(rx, n.rsplit('.',1)[1]):
                show('ens '+n.rsplit('.',1)[1], proofs.check_ens(prog, n, debug=debug))
        return
    names = [n for n in prog['funcs'] if n.startswith(machine.MOD+pkg+'.zl') and re.search(rx, n)]
    for n in sorted(names):
        import proofs
        nc = proofs.ncases(prog, n)
        if nc:
            import multiprocessing as mp
            def one(i):
                r = proofs.run_lemma(prog, n, debug=debug, contracts=not nocon, split=i)
                r.pop('engine'); r.pop('failstates')
                return r
            globals()['one'] = one
            sel = [int(x[2:]) for x in sys.argv if x.startswith('-s')] or range(nc)
            with mp.Pool(8) as pool:
                for i, r in zip(sel, pool.imap(one_, sel)):
                    show('%s[%d]' % (n.rsplit('.',1)[1], i), r)
            continue
        r = proofs.run_lemma(prog, n, debug=debug, contracts=not nocon)
        print(n.rsplit('.',1)[1], r['status'], '%.1fs' % r['time'], 'proved', len(r['proved']), 'paths', r['paths'], 'queries', r['queries'], 'solver %.1f' % r['solver_s'])
        for x in r['failed'][:6]:
            print('   FAIL', x[0], x[1][:1500])
        if r.get('error'): print('   ', r['error'][:3000])
main()
