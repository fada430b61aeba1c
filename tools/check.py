#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree.

1. TLC checks the specification's own models for the property (spec/MC_*.tla).
2. The real daemon, built from /repo, is run in the harness on scenarios (from TLC's enumeration of
   the specification, directed ones and random histories).
3. TLC checks every recorded trace against the specification (spec/Trace.tla).
Differences that count against the property are re-run; one that repeats is a violation.
"""
import base64, json, os, pickle, random, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from run_tlc import tlc, conform
from profiles import PROPS, Gen
import models

def counts(prop, trace, line, fields):
    """the differences at this line that count against the property"""
    ln = trace['lines'][line - 1]
    f = set(prop['f'])
    if 'fl' in prop and ln.get('k') == 'load': f |= prop['fl']
    if 'fs' in prop and ln.get('sig'): f |= prop['fs']
    return fields & f

def summary(sc, trace):
    return dict(id=sc.id, segments=[dict(before=[c[:160] for c in g['pre']][:40], script=[c[:160] for c in g['script']][:80],
                                         state=None if g['state'] is None else repr(g['state'][-1])[:600]) for g in sc.segs],
                lines=len(trace['lines']))

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    quick = tier == 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    os.makedirs(VERIF + '/evidence', exist_ok=True); os.makedirs(VERIF + '/replay', exist_ok=True)
    try:
        b = subprocess.run(['bash', VERIF + '/harness/build.sh', work + '/hb'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode:
            print(b.stdout[-3000:]); print('ERROR: the harness does not build'); return 2
        os.mkdir(work + '/runs')
        R = Runner(work + '/hb', work + '/runs')
        cov = dict(states=0, transitions=0, traces_validated_against_impl=0, trace_lines=0, daemon_runs=0, models=[], scenarios={}, samples=[])
        # --- the specification itself
        mres, mscn = models.both(pid, quick, seed)
        for name, r in mres:
            cov['models'].append(r)
            if not r['ok']:
                print(r['out'][-3000:]); print('ERROR: model %s of the specification fails' % name); return 2
            r.pop('out'); cov['states'] += r['states']; cov['transitions'] += r['transitions']
        # --- the code against the specification
        rounds = 1 if quick else int(os.environ.get('VERIF_ROUNDS', '12'))
        viol = []; seenkinds = {}
        hits = {}
        for rd_ in range(rounds):
            s0 = '%s/%s/%d' % (pid, seed, rd_)
            rng = random.Random(s0)
            batches = []
            if rd_ == 0:
                for d in prop.get('d', []): batches.append((d.__name__, d(rng, quick, s0)))
                batches += mscn
            for name, n, kw in prop.get('h', []):
                batches.append((name, [Gen(random.Random('%s/%s/%d' % (s0, name, i)), '%s-%d.%d' % (name, rd_, i), **kw).history() for i in range(int(n * SCALE))]))
            for name, scs in batches:
                cov['scenarios'][name] = cov['scenarios'].get(name, 0) + len(scs)
            allsc = [s for _, scs in batches for s in scs]
            for i, sc in enumerate(allsc): sc.id = '%d.%d:%s' % (rd_, i, sc.id)     # told apart
            for lo in range(0, len(allsc), 1500):
                scs = allsc[lo:lo + 1500]
                v, ok, out = judge(R, prop, scs, cov, hits)
                if not ok:
                    print(out[-4000:]); print('ERROR: TLC could not check the traces'); return 2
                for sc, res, tr, what in v:
                    # once more, alone, from the start
                    v2, ok2, _ = judge(R, prop, [sc], None, {})
                    if ok2 and v2:
                        viol.append((sc, v2[0][1], v2[0][2], v2[0][3]))
                        if len(viol) >= 5: break
                if viol: break
            if viol: break
        cov['lines_of_interest'] = hits
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(viol),
                  assumptions=ASSUME)
        json.dump(ev, open(VERIF + '/evidence/%s.json' % pid, 'w'), indent=1)
        if not viol:
            print('OK property=%s: %d daemon runs, %d trace lines conform; %d model states; %.0f s' % (pid, cov['daemon_runs'], cov['trace_lines'], cov['states'], time.time() - t0))
            return 0
        for i, (sc, res, tr, what) in enumerate(viol):
            fn = VERIF + '/replay/%s-%d.json' % (pid, i)
            json.dump(dict(property=pid, differences=what, scenario=summary(sc, tr), notes=[r['txt'][-2500:] for r in res if r['txt']],
                           pickle=base64.b64encode(pickle.dumps(sc)).decode()), open(fn, 'w'), indent=1)
            print('  %s: %s' % (sc.id, '; '.join('line %d: %s' % (n, ', '.join(f)) for n, f in what[:4])))
            print('VIOLATION property=%s replay=%s' % (pid, fn))
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)

SCALE = float(os.environ.get('VERIF_SCALE', '2.5'))
ASSUME = ['the harness (virtual /proc, files, clock, signals; harness/harness.c) presents to the daemon what a kernel would',
          'the projection of the daemon\'s structures into the trace (harness.c, vlib.Canon) is faithful',
          'numbers of the predictor are compared within 4e-5']

def judge(R, prop, scs, cov, hits):
    res = R.run_all(scs)
    trs = []
    for sc, r in zip(scs, res):
        t, n = Canon(sc).trace(r); trs.append(t)
    bad, ok, out, lines = conform(trs)
    if cov is not None:
        cov['traces_validated_against_impl'] += len(trs); cov['trace_lines'] += sum(len(t['lines']) for t in trs)
        cov['daemon_runs'] += sum(len(r) for r in res); cov['states'] += lines; cov['transitions'] += lines - len(trs)
        for t in trs:
            for l in t['lines']:
                for k, c in (('scan', l.get('scans')), ('save', l.get('att')), ('signal', l.get('sig')), ('prefetch', l.get('rc')), ('crash', l.get('k') == 'crash'),
                             ('start', l.get('boot')), ('refused', l.get('k') == 'fail'), ('exit', l.get('k') == 'exit')):
                    if c: hits[k] = hits.get(k, 0) + 1
        if len(cov['samples']) < 3:
            for sc, t in list(zip(scs, trs))[:3]: cov['samples'].append(summary(sc, t))
    v = []
    for sc, r, t in zip(scs, res, trs):
        what = [(n, sorted(c)) for n, f in sorted(bad.get(sc.id, [])) for c in [counts(prop, t, n, f)] if c]
        if what: v.append((sc, r, t, what))
    return v, ok, out

if __name__ == '__main__':
    sys.exit(main())
