import sys, os, time, importlib, warnings
REPO = os.environ.get('REPO', '/repo')
sys.path[:0] = ['/verif', REPO]
sys.setrecursionlimit(20000)
import threading; threading.stack_size(512*1024*1024)
from vc import interp
interp.DIRS += [REPO + '/gdspy/', '/verif/contracts/']
from vc import contract as C
def ob_facts(o):
    return str(o.model)[:3000]
def main():
    mods = sys.argv[1].split(',')
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    nconc = int(sys.argv[3]) if len(sys.argv) > 3 else 20
    for m in mods: importlib.import_module('contracts.' + m)
    seen = set()
    for k, c in list(C.CONTRACTS.items()):
        if c.name in seen or k[0].lower() not in mods: continue
        seen.add(c.name)
        import re
        if pat and not re.search(pat, c.name): continue
        t = time.time()
        if c.sym and not os.environ.get('NOSYM'):
            r = C.prove_contract(c, float(os.environ.get('BUDGET', 0)) or None)
            e = r['engine']
            obs = e.obligations
            cnt = {}
            for o in obs: cnt[o.status] = cnt.get(o.status, 0) + 1
            print('%-5s %-40s %-11s %s paths=%d q=%d %.1fs solver %.1fs %s cov=%s' % (k[0], c.name, r['status'], cnt, e.paths_done, e.queries, r['secs'], e.solver_secs, r['why'][:600], dict(e.covers)))
            for o in [o for o in obs if o.status != 'proved'][:5]:
                if os.environ.get('FACTS'): print(ob_facts(o))
                print('     !!', o.status, o.name, o.path, o.detail[-700:].replace(chr(10), chr(10)+'        ')[:900])
        bad = {}
        for s in range(nconc):
            out, det, ctx = C.run_conc(c, s)
            bad[out] = bad.get(out, 0) + 1
            if out in ('violated', 'error') and bad[out] <= 2: print('     conc', s, det[:1500])
        print('     conc', bad, '%.1fs' % (time.time()-t))
def prof():
    import cProfile, pstats
    p = cProfile.Profile(); p.enable()
    main()
    p.disable(); pstats.Stats(p).sort_stats('cumtime').print_stats(45)
t = threading.Thread(target=prof if os.environ.get('PROF') else main); t.start(); t.join()
