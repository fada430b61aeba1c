#!/usr/bin/env python3
"""selftest.py [N] [SEED]: does the judge notice?  Takes traces of the real daemon, changes one recorded value in each
copy, and reports, by the place of the value, how many of the changed traces the specification refuses.
Not a registered check."""
import copy, os, random, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from run_tlc import conform
from profiles import PROPS, Gen

def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items(): yield from leaves(v, path + (k,))
        yield path + ('{}',)
    elif isinstance(x, list):
        for k, v in enumerate(x): yield from leaves(v, path + (k,))
        yield path + ('[]',)
    else: yield path

def kind(path):
    return '.'.join('*' if isinstance(p, int) or re.search(r'[/ @0-9]', str(p)) else str(p) for p in path)

def mutate(ln, path, rng):
    """changes the value at path; returns what was done, None if nothing"""
    x = ln
    if path[-1] in ('{}', '[]'):
        for p in path[:-1]: x = x[p]
        if not x: return None
        if isinstance(x, dict):
            if len(path) < 3 or path[-2] in ('w',): return None
            k = rng.choice(sorted(x)); 
            if not re.search(r'[/@0-9]', k): return None
            del x[k]; return 'drop'
        if path[-2] in ('s', 'arr') or 'w' in path: return None
        del x[rng.randrange(len(x))]; return 'drop'
    for p in path[:-1]: x = x[p]
    v = x[path[-1]]
    if isinstance(v, bool): x[path[-1]] = not v; return 'flip'
    if isinstance(v, int): x[path[-1]] = v + rng.choice((1, -1, 7)) * (200 if path[-1] in ('pr', 'ln', 's', 'heap') or 's' in path[-2:] else 1); return 'number'
    if isinstance(v, str): x[path[-1]] = v + 'x'; return 'text'
    return None

def judge(part):
    bad, ok, _, _ = conform(part)
    if ok: return set(bad)
    if len(part) == 1: return {part[0]['id']}       # TLC cannot even evaluate it
    h = len(part) // 2
    return judge(part[:h]) | judge(part[h:])

def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 2000; seed = sys.argv[2] if len(sys.argv) > 2 else '1'
    rng = random.Random('selftest' + seed)
    work = tempfile.mkdtemp(prefix='selftest-')
    try:
        subprocess.check_call(['bash', VERIF + '/harness/build.sh', work + '/hb']); os.mkdir(work + '/runs')
        scs = []
        for pid, p in PROPS.items():
            for d in p.get('d', []):
                if d.__name__ == 'd_bytes': continue
                l = d(rng, True, seed); scs += rng.sample(l, min(len(l), 4))
            for name, k, kw in p.get('h', []):
                scs += [Gen(random.Random('%s/%s/%d' % (seed, name, i)), '%s-%s.%d' % (pid, name, i), **kw).history() for i in range(4)]
        for i, s in enumerate(scs): s.id = '%d:%s' % (i, s.id)
        R = Runner(work + '/hb', work + '/runs')
        trs = [Canon(sc).trace(r)[0] for sc, r in zip(scs, R.run_all(scs))]
        bad, ok, out, _ = conform(trs)
        assert ok and not bad, (bad, out[-2000:])
        muts = []; what = {}
        # the places of each kind, each kind about equally often
        places = {}
        for ti, t in enumerate(trs):
            for li, ln in enumerate(t['lines']):
                for p in leaves(ln):
                    if kind(p) in ('L.exes.*.pr', 'L.maps.*.ln', 'L.maps.*.rk', 'L.maps.*.neg', 'L.maps.*.ok') and not ln.get('rc'): continue     # no prediction there
                    if kind(p) in ('code',) and ln['k'] not in ('exit', 'fail'): continue
                    if kind(p) in ('eline',) and ln['k'] != 'fail': continue
                    places.setdefault(kind(p), []).append((ti, li, p))
        per = max(3, n // len(places))
        for kd, pl in sorted(places.items()):
            for ti, li, p in rng.sample(pl, min(per, len(pl))):
                t = dict(trs[ti]); t['lines'] = list(t['lines']); t['lines'][li] = copy.deepcopy(t['lines'][li])
                how = mutate(t['lines'][li], p, rng)
                if not how: continue
                t['id'] = 'm%d' % len(muts); what[t['id']] = (kd, how, scs[ti].id, li + 1); muts.append(t)
        print(len(trs), 'traces,', len(muts), 'changed copies', flush=True)
        tab = {}
        for lo in range(0, len(muts), 1200):
            part = muts[lo:lo + 1200]
            bad = judge(part)
            for t in part:
                kd, how, sid, li = what[t['id']]
                e = tab.setdefault((kd, how), [0, 0, []]); e[0] += 1
                if t['id'] in bad: e[1] += 1
                else: e[2].append((sid, li))
        tot = [sum(e[k] for e in tab.values()) for k in (0, 1)]
        for (kd, how), e in sorted(tab.items(), key=lambda x: (x[1][1] / x[1][0], x[0])):
            print('%-45s %-7s %d/%d  %s' % (kd, how, e[1], e[0], e[2][:2] if e[1] < e[0] else ''))
        print('refused %d of %d' % (tot[1], tot[0]))
    finally: shutil.rmtree(work, ignore_errors=True)
main()
