"""Developer runner: python run1.py C01 [name] [-v] [-s: symbolic only] [-c: concrete only]"""
import sys, time, os
os.environ['TQDM_DISABLE'] = '1'
sys.path.insert(0, '/verif'); sys.path.insert(0, '/repo')
import importlib
from vc import contract as K, runner as R
args = [a for a in sys.argv[1:] if not a.startswith('-')]; opt = [a for a in sys.argv[1:] if a.startswith('-')]
pid = args[0]; importlib.import_module('contracts.' + pid)
cts = [(i, c) for i, c in enumerate(K.CONTRACTS[pid]) if len(args) < 2 or args[1] in c.name]
jobs = []
for i, c in cts:
    if c.mode == "proof" and '-c' not in opt: jobs.append((("p", i), R.prove_job, (pid, i, c.timeout), c.timeout + 30))
    if '-s' not in opt: jobs.append((("c", i), R.cases_job, (pid, i, range(c.cases), 60), 120))
t = time.time(); out = R.parallel(jobs, 7)
for i, c in cts:
    if ("p", i) in out:
        r = out["p", i] or dict(status="killed")
        obs = r.get('obligations', []); bad = [o for o in obs if o['status'] != 'proved']
        print(f"{c.name}: {r['status']} {len(obs)} obl, {r.get('paths')} paths, {r.get('wall_s')} s", str(r.get('reason', ''))[-300:].replace(chr(10), ' | '), str(r.get('where', ''))[-200:].replace(chr(10), ' | '), (r.get('trace') or '')[-300:].replace(chr(10), ' | '))
        for o in bad[:4]: print('   ', {k: str(v)[:700 if '-v' in opt else 260] for k, v in o.items() if k not in ('facts', 'model' if '-v' not in opt else '')})
        if '-v' in opt:
            for o in bad[:2]: print([str(f)[:400] for f in o.get('facts') or []][-25:])
    if ("c", i) in out:
        r = out["c", i] or dict(status="killed")
        if r.get('fails') or 'n' not in r or '-v' in opt or r['n'] == 0 or r['wall_s'] > 10: print('   concrete', c.name, {k: v for k, v in r.items() if k != 'fails'})
        for s, inp, f, tr in r.get('fails', [])[:3]: print('   CASE', s, f[:4], tr[-500:])
print(round(time.time() - t, 1), 's')
